pub mod codec;
pub mod hand;
pub mod more;
pub mod more2;
pub mod more3;
pub mod payload;
pub mod stream;

use crate::engine::{AnyProp, Wrap};

pub fn all() -> Vec<Box<dyn AnyProp>> {
    let mut v: Vec<Box<dyn AnyProp>> = vec![];
    macro_rules! add { ($($p:expr),* $(,)?) => { $( v.push(Box::new(Wrap($p))); )* } }
    add!(
        stream::C01, stream::C02, stream::C03,
        codec::C04, codec::C05, codec::C06, codec::C07,
        hand::C08, hand::C09,
        stream::C10, stream::C11,
        codec::C12,
        hand::C13,
        payload::C14, payload::C15, payload::C16,
        stream::C17,
        codec::C18, codec::C19, codec::C20,
        payload::C21,
        stream::C22,
        codec::C23, codec::C24,
        stream::C25, stream::C26,
        more::C27, more::C28, more::C29, more::C30, more::C31, more::C32, more::C33,
        more2::C34, more2::C35, more2::C36, more2::C37, more2::C38,
        more3::C39, more3::C40,
    );
    v
}
