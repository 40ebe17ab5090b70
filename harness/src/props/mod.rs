use crate::engine::Ctx;

pub mod capi;
pub mod eqord;
pub mod legal;
pub mod more;
pub mod position;
pub mod text;
pub mod values;
pub mod vm;

pub type Prop = fn(&mut Ctx);
pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => position::c01,
        "C02" => position::c02,
        "C03" => position::c03,
        "C04" => position::c04,
        "C05" => position::c05,
        "C06" => position::c06,
        "C07" => text::c07,
        "C08" => text::c08,
        "C09" => text::c09,
        "C10" => text::c10,
        "C11" => values::c11,
        "C12" => values::c12,
        "C13" => values::c13,
        "C14" => values::c14,
        "C15" => values::c15,
        "C16" => values::c16,
        "C17" => values::c17,
        "C18" => values::c18,
        "C19" => eqord::c19,
        "C20" => capi::c20,
        "C21" => capi::c21,
        "C22" => vm::c22,
        "C27" => vm::c27,
        "C23" => legal::c23,
        "C24" => legal::c24,
        "C25" => position::c25,
        "C26" => values::c26,
        "C28" => more::c28,
        "C29" => more::c29,
        "C30" => more::c30,
        "C31" => more::c31,
        _ => return None,
    })
}

/// How much of the time a quick check may take each property needs; see `Ctx::scale`.
pub fn scale(id: &str) -> f64 {
    match id {
        "C02" => 5.0,
        "C03" => 8.0,
        "C04" | "C10" | "C11" | "C18" | "C06" => 14.0,
        "C05" | "C07" | "C08" | "C12" | "C13" | "C23" | "C25" => 13.0,
        "C14" => 40.0,
        "C15" => 5.0,
        "C09" | "C17" | "C26" => 40.0,
        "C19" => 1.5,
        "C24" => 60.0,
        "C28" => 25.0,
        "C29" => 12.0,
        "C31" => 10.0,
        "C20" => 3.0,
        "C21" => 2.0,
        "C27" => 1.5,
        _ => 1.0,
    }
}
