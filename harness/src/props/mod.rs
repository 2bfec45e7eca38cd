use crate::core::Prop;

mod build;
mod chain;
mod conf;
mod filters;
mod gener;
mod kind;
mod mem;
mod miro;
mod meta;
mod misc;
mod nan;
mod penal;
mod select;
mod pipe;

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
    "C11", "C12", "C13", "C14", "C15",
    "C16", "C17", "C18", "C19",
    "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36",
];

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => build::c01(),
        "C02" => build::c02(),
        "C03" => build::c03(),
        "C04" => pipe::c04(),
        "C05" => pipe::c05(),
        "C06" => filters::c06(),
        "C07" => filters::c07(),
        "C08" => filters::c08(),
        "C09" => filters::c09(),
        "C10" => filters::c10(),
        "C11" => penal::c11(),
        "C12" => penal::c12(),
        "C13" => penal::c13(),
        "C14" => penal::c14(),
        "C15" => penal::c15(),
        "C16" => select::c16(),
        "C17" => select::c17(),
        "C18" => miro::c18(),
        "C19" => miro::c19(),
        "C28" => miro::c28(),
        "C20" => chain::c20(),
        "C21" => chain::c21(),
        "C29" => chain::c29(),
        "C22" => conf::c22(),
        "C23" => conf::c23(),
        "C27" => conf::c27(),
        "C24" => misc::c24(),
        "C25" => misc::c25(),
        "C26" => misc::c26(),
        "C30" => nan::c30(),
        "C31" => meta::c31(),
        "C32" => kind::c32(),
        "C33" => mem::c33(),
        "C34" => gener::c34(),
        "C35" => conf::c35(),
        "C36" => conf::c36(),
        _ => return None,
    })
}
