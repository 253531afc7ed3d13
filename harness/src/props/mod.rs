pub mod codec;
#[cfg(feature = "enc")]
pub mod crypto;
pub mod flows;
pub mod hostile;
pub mod limits;
pub mod nego;
pub mod time;
pub mod transfer;

use crate::case::Case;

pub type Run = fn(&mut Case);

pub fn find(prop: &str) -> Option<Run> {
    Some(match prop {
        #[cfg(feature = "enc")]
        "C19" => crypto::c19,
        #[cfg(feature = "enc")]
        "C20" => crypto::c20,
        #[cfg(feature = "enc")]
        "C21" => crypto::c21,
        #[cfg(feature = "enc")]
        "C22" => crypto::c22,
        "C12" => codec::c12,
        #[cfg(feature = "enc")]
        "C23" => codec::c23,
        #[cfg(feature = "enc")]
        "C24" => codec::c24,
        "C01" => transfer::c01,
        "C03" => flows::c03,
        "C07" => flows::c07,
        "C08" => flows::c08,
        "C04" => transfer::c04,
        "C05" => time::c05,
        "C06" => time::c06,
        "C13" => hostile::c13,
        "C14" => hostile::c14,
        "C15" => hostile::c15,
        "C18" => limits::c18,
        "C25" => limits::c25,
        "C29" => limits::c29,
        "C09" => nego::c09,
        "C10" => nego::c10,
        "C11" => nego::c11,
        "C02" => transfer::c02,
        _ => return None,
    })
}
