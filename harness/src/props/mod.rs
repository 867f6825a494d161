//! One module per area, one `Prop` per property.

use crate::engine::Prop;

mod convert;
mod decode;
mod encode;
mod layout;
mod make;
mod nav;
mod num;
mod parse;
mod text;
mod value;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(text::props());
    v.extend(layout::props());
    v.extend(parse::props());
    v.extend(num::props());
    v.extend(value::props());
    v.extend(nav::props());
    v.extend(encode::props());
    v.extend(decode::props());
    v.extend(convert::props());
    v.extend(make::props());
    v
}
