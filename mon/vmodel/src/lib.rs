pub mod disk;
pub mod image;
pub mod meter;
pub mod prng;
pub mod vol;
pub mod gen;
pub mod probe;
pub mod hostile;
