use crate::engine::Report;
mod analysis;
mod compare;
mod composition;
mod defrules;
pub mod errors;
mod grammar;
mod lexical;
mod scale;
mod schema;
pub mod validation;
pub mod vctx;
pub mod vgen;
mod typegen;
mod visibility;
mod visiting;

pub fn lookup(id: &str) -> Option<fn(&mut Report)> {
    Some(match id {
        "C01" => lexical::c01,
        "C02" => grammar::c02,
        "C03" => grammar::c03,
        "C04" => errors::c04,
        "C05" => schema::c05,
        "C06" => grammar::c06,
        "C07" => grammar::c07,
        "C29" => grammar::c29,
        "C08" => compare::c08,
        "C09" => compare::c09,
        "C10" => validation::c10,
        "C11" => validation::c11,
        "C12" => validation::c12,
        "C13" => validation::c13,
        "C14" => validation::c14,
        "C15" => validation::c15,
        "C16" => validation::c16,
        "C17" => validation::c17,
        "C18" => validation::c18,
        "C19" => analysis::c19,
        "C20" => analysis::c20,
        "C21" => analysis::c21,
        "C22" => analysis::c22,
        "C23" => analysis::c23,
        "C24" => analysis::c24,
        "C25" => analysis::c25,
        "C28" => defrules::c28,
        "C30" => composition::c30,
        "C31" => typegen::c31,
        "C26" => visibility::c26,
        "C32" => visiting::c32,
        "C27" => visibility::c27,
        _ => return None,
    })
}
