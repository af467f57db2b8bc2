//! Only here so that cargo builds pomelo and the crates its generator uses.
