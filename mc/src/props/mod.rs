pub mod astro;
pub mod basics;
pub mod calendar;
pub mod cli;
pub mod geo;
pub mod hist;
pub mod linalg;
pub mod sun;
pub mod times;
pub mod total;

use crate::engine::Family;

pub struct Prop {
    pub id: &'static str,
    pub families: fn(bool) -> Vec<Family>,
    pub assumptions: &'static [&'static str],
}

const A: &[&str] = &[
    "the host's f64 arithmetic and libm behave as on the machine the check runs on",
    "the reference models in mc/src/model.rs and the tables in ref/ are right; each run replays model and implementation on the same inputs, and the SOFA test vectors in ref/vectors.txt bind the model to an outside source",
];

macro_rules! p {
    ($id:expr, $f:path) => {
        Prop { id: $id, families: $f, assumptions: A }
    };
}

pub fn all() -> Vec<Prop> {
    vec![
        p!("C01", calendar::c01),
        p!("C02", calendar::c02),
        p!("C03", calendar::c03),
        p!("C04", calendar::c04),
        p!("C05", calendar::c05),
        p!("C06", calendar::c06),
        p!("C07", times::c07),
        p!("C08", times::c08),
        p!("C09", linalg::c09),
        p!("C10", linalg::c10),
        p!("C11", linalg::c11),
        p!("C12", geo::c12),
        p!("C13", geo::c13),
        p!("C14", geo::c14),
        p!("C15", geo::c15),
        p!("C16", geo::c16),
        p!("C17", astro::c17),
        p!("C18", astro::c18),
        p!("C19", astro::c19),
        p!("C20", astro::c20),
        p!("C21", astro::c21),
        p!("C22", astro::c22),
        p!("C23", astro::c23),
        p!("C24", astro::c24),
        p!("C25", sun::c25),
        p!("C26", sun::c26),
        p!("C27", hist::c27),
        p!("C28", total::c28),
        p!("C29", cli::c29),
        p!("C30", basics::c30),
    ]
}
