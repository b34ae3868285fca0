// only the two record-keeping structures of the builder; both files are the real ones
pub mod wip { pub mod flat_map; pub mod iset; }
