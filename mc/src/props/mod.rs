use crate::common::Scenario;
pub mod bundled;
pub mod cross;
pub mod faults;
pub mod hislip;
pub mod hislip2;
pub mod junk;
pub mod leak;
pub mod lock;
pub mod multi;
pub mod rpc;
pub mod sock;
pub mod status;
pub mod vxi;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35"];

pub fn scenarios(id: &str) -> Option<Vec<Scenario>> {
    Some(match id {
        "C01" => lock::c01(),
        "C02" => lock::c02(),
        "C03" => lock::c03(),
        "C04" => lock::c04(),
        "C05" => status::c05(),
        "C06" => sock::c06(),
        "C07" => sock::c07(),
        "C08" => sock::c08(),
        "C09" => cross::c09(),
        "C10" => cross::c10(),
        "C11" => junk::c11(),
        "C12" => faults::c12(),
        "C13" => hislip::c13(),
        "C14" => hislip::c14(),
        "C15" => hislip::c15(),
        "C16" => hislip2::c16(),
        "C17" => hislip2::c17(),
        "C18" => hislip2::c18(),
        "C19" => hislip2::c19(),
        "C20" => hislip2::c20(),
        "C21" => rpc::c21(),
        "C28" => rpc::c28(),
        "C29" => rpc::c29(),
        "C30" => rpc::c30(),
        "C31" => faults::c31(),
        "C22" => vxi::c22(),
        "C23" => vxi::c23(),
        "C24" => vxi::c24(),
        "C25" => vxi::c25(),
        "C26" => vxi::c26(),
        "C27" => vxi::c27(),
        "C32" => multi::c32(),
        "C33" => multi::c33(),
        "C34" => leak::c34(),
        "C35" => bundled::c35(),
        _ => return None,
    })
}
