//! Runtime monitors for arkworks-rs/ripp.
pub mod attack;
pub mod battery;
pub mod battery_ip;
pub mod forge;
pub mod g16;
pub mod gen;
pub mod mem;
pub mod mini;
pub mod pace;
pub mod pc;
pub mod run;
pub mod sip;
pub mod ssm;
pub mod tattack;
pub mod util;
pub use attack::*;
pub use forge::*;
pub use g16::*;
pub use gen::*;
pub use mem::*;
pub use mini::Mini;
pub use pace::lockstep;
pub use pc::*;
pub use run::*;
pub use sip::*;
pub use ssm::*;
pub use tattack::*;
pub use util::*;
