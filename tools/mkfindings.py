"""Writes known-findings.txt."""
import os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.txt")
L = ["# Genuine defects of the code base that are recorded and not repaired, one per line; each check prints",
     "# KNOWN-FINDING for those it meets and still reports any other violation of the property.", ""]
def f(p, sig, what): L.append(f"finding: property={p} sig={sig} {what}")
for m, fld in [("buildTarget/compile","targets"),("buildTarget/test","targets"),("buildTarget/dependencySources","targets"),("buildTarget/run","arguments")]:
    f("C23", f"{m}:{fld}->empty-response", f"a {m} request that follows the BSP specification ({fld} being an array) is delivered as a response without result or error")
for m in ["build/initialize","buildTarget/compile","buildTarget/test","buildTarget/run","debugSession/start","buildTarget/cleanCache","buildTarget/dependencyModules","buildTarget/dependencySources","buildTarget/inverseSources","buildTarget/resources","buildTarget/sources"]:
    f("C24", f"call-params:{m}->empty-response", f"a {m} request whose params do not fit is delivered as a response without result or error instead of being refused")
f("C24","call-method:missing->empty-response","an object with id and no method, result or error is delivered as a response without result or error")
f("C24","call-method:wrong-type->empty-response","a request whose method is no string is delivered as a response without result or error")
for k in ["null","bool","float","bigint","array","object"]:
    f("C24", f"call-id:{k}->notification", f"a call whose id is a {k} is delivered as a notification")
f("C24","dup-id->notification","a request with two id members is delivered as a notification")
f("C24","dup-method->empty-response","a request with two method members is delivered as a response without result or error")
f("C24","dup-params->empty-response","a request with two params members is delivered as a response without result or error")
f("C24","array-body->response","a body that is a JSON array (a batch, say) can be delivered as a response made of its elements")
L.append("")
L.append("# Repaired in /repo; these suppress nothing.")
for p, c, w in [
 ("C20","08872b1","Request::params of a custom request returned its method"),
 ("C04","6c43ed4","requests that omit params were read as empty responses"),
 ("C12","e3dba28","custom notifications that omit params were refused"),
 ("C05","e3dba28","custom notifications that omit params were refused"),
 ("C18","611538c","a message with an unknown member failed to decode directly as Request or Notification"),
 ("C05","74d0b57","task progress notifications used another method name than build/taskProgress"),
 ("C04","bbb8341","inverse sources requests used another method name than buildTarget/inverseSources"),
 ("C08","72d3292","notifications received before initialize ended the handshake with an error"),
 ("C08","ad5d38e","initialize panicked when the peer disconnected before or during the handshake"),
 ("C03","8779ad4","a huge Content-Length was allocated up front, ending the process"),
 ("C03","c7e3cfd","the socket threads panicked on a malformed message"),
 ("C11","c7e3cfd","the socket threads panicked on transport errors"),
 ("C11","7280aaf","the reader thread panicked once the connection was dropped"),
 ("C06","2d069b7","a response with result null decoded to one without result"),
 ("C14","79edb7d","task event times (milliseconds since Epoch) did not fit the member's 32 bits"),
 ("C21","b6414cb","root_path left percent-encoded characters in the path"),
 ("C29","2a8525e","every custom message received leaked its method name"),
 ("C34","ff82116","operations a build server does not implement panicked instead of answering with an error"),
 ("C16","65a9ef4","build target tags were encoded as Rust enum values, not as the protocol's strings")]:
    L.append(f"fixed: property={p} {c} {w}")
open(OUT,"w").write("\n".join(L)+"\n")
