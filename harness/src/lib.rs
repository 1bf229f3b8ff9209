pub mod conv;
pub mod cov;
pub mod engine;
pub mod extsets;
pub mod gen;
pub mod guided;
pub mod logic;
pub mod model;
pub mod props_cf;
pub mod props_ops;
pub mod props_pure;
pub mod props_read;
pub mod props_size;
pub mod props_text;
pub mod props_use;
pub mod refdec;
pub mod rules;
pub mod spec;

pub const PROPS: [&str; 26] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"];

pub fn arms(id: &str) -> Option<Vec<engine::Arm>> {
    let list = props_read::arms(id).or_else(|| logic::arms(id)).or_else(|| props_cf::arms(id)).or_else(|| props_ops::arms(id)).or_else(|| props_size::arms(id)).or_else(|| props_text::arms(id)).or_else(|| props_pure::arms(id)).or_else(|| props_use::arms(id));
    let flow = ["C01", "C12", "C13", "C14", "C15", "C16", "C22", "C23", "C24", "C25"].contains(&id);
    list.map(|l| l.into_iter().map(|a| engine::Arm { flow, ..a }).collect())
}
