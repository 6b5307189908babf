//! Contract model: the number of CPUs is some fixed positive number.
pub fn get() -> usize { 2 }
pub fn get_physical() -> usize { 2 }
