#![no_std]
pub use mixed_num as _;
