@impl mac_address::VFrom<&MacAddress> for u64
open spec fn from_ens(v: &MacAddress, r: Self) -> bool {
    r == (match *v { MacAddress::Short(x) => crate::stubs::le16(x@), MacAddress::Extended(x) => crate::stubs::le64(x@) })
}
@impl mac_address::VFrom<MacAddress> for u64
open spec fn from_ens(v: MacAddress, r: Self) -> bool {
    r == (match v { MacAddress::Short(x) => crate::stubs::le16(x@), MacAddress::Extended(x) => crate::stubs::le64(x@) })
}
@impl mac_address::VFrom<&MacAddress> for Vec<u8>
open spec fn from_ens(v: &MacAddress, r: Self) -> bool { r@ == crate::app::addr_bytes(*v) }
@impl mac_address::VFrom<MacAddress> for Vec<u8>
open spec fn from_ens(v: MacAddress, r: Self) -> bool { r@ == crate::app::addr_bytes(v) }
@fn mac_address::VFrom<&MacAddress> for u64::from
@tags K01 D01
@fn mac_address::VFrom<MacAddress> for u64::from
@tags K01 D01
@fn mac_address::VFrom<&MacAddress> for Vec<u8>::from
@tags K01 A01
@fn mac_address::VFrom<MacAddress> for Vec<u8>::from
@tags K01 A01
@mod mac_address
impl crate::stubs::VTryFrom<String> for MacAddress {
    type Error = Error;
    open spec fn try_from_ens(v: String, r: core::result::Result<Self, Self::Error>) -> bool { true }
    #[verifier::external_body]
    fn vtry_from(v: String) -> (r: core::result::Result<Self, Self::Error>) { unimplemented!() }
}
