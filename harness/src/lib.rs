pub mod complexes;
pub mod driver;
pub mod fields;
pub mod fw;
pub mod adapt;
pub mod gens;
pub mod mats;
pub mod redu;
pub mod refla;
pub mod scale;
pub mod virt;
pub mod zoo;
