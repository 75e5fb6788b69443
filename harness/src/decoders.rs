//! Every public decoder, reduced to: error, or (remaining octets, a text
//! standing for the decoded value).

use gufo_snmp::ber::*;
use gufo_snmp::snmp::get::SnmpGet;
use gufo_snmp::snmp::getbulk::SnmpGetBulk;
use gufo_snmp::snmp::getresponse::SnmpGetResponse;
use gufo_snmp::snmp::msg::v3::{MsgData, ScopedPdu, SnmpV3Message, UsmParameters};
use gufo_snmp::snmp::msg::{SnmpPdu, SnmpV1Message, SnmpV2cMessage};
use gufo_snmp::snmp::value::SnmpValue;
use pyo3::prelude::*;

pub type R = Option<(usize, String)>;

macro_rules! py_any {
    ($v:expr) => {
        Python::with_gil(|py| match ($v).into_pyobject(py) {
            Ok(x) => x.repr().map(|r| r.to_string()).unwrap_or_else(|_| "?".into()),
            Err(_) => "unconvertible".into(),
        })
    };
}

macro_rules! typed {
    ($t:ident, $i:expr) => {
        match $t::from_ber($i) {
            Ok((t, v)) => Some((t.len(), py_any!(&v))),
            Err(_) => None,
        }
    };
}

pub fn pdu(p: &SnmpPdu) -> String {
    match p {
        SnmpPdu::GetRequest(g) => format!("get {}", get(g)),
        SnmpPdu::GetNextRequest(g) => format!("getnext {}", get(g)),
        SnmpPdu::GetBulkRequest(_) => "getbulk".into(),
        SnmpPdu::GetResponse(_) => "response".into(),
        SnmpPdu::Report(r) => format!("report {}", crate::hex(r.0)),
    }
}

pub fn oid(o: &SnmpOid) -> String {
    String::try_from(o).unwrap_or_else(|_| "invalid".into())
}

pub fn get(g: &SnmpGet) -> String {
    let v: Vec<String> = g.vars.iter().map(oid).collect();
    format!("{} {}", g.request_id, v.join(","))
}

pub fn usm(u: &UsmParameters) -> String {
    format!(
        "{} {} {} {} {} {}",
        crate::hex(u.engine_id),
        u.engine_boots,
        u.engine_time,
        crate::hex(u.user_name),
        crate::hex(u.auth_params),
        crate::hex(u.privacy_params)
    )
}

pub fn data(d: &MsgData) -> String {
    match d {
        MsgData::Plaintext(s) => format!("plain {} {}", crate::hex(s.engine_id), pdu(&s.pdu)),
        MsgData::Encrypted(x) => format!("cipher {}", crate::hex(x)),
    }
}

/// Element decoders: `from_ber`.
pub const ELEMENTS: &[&str] = &[
    "value", "bool", "int", "oct", "oid", "odesc", "real", "ip", "c32", "g32", "tt", "opaque", "c64", "u32", "null", "seq", "option", "rel",
    "header",
];

pub fn element(name: &str, i: &[u8]) -> R {
    match name {
        "value" => match SnmpValue::from_ber(i) {
            Ok((t, v)) => Some((
                t.len(),
                match &v {
                    SnmpValue::Null => "null".into(),
                    SnmpValue::NoSuchObject => "noSuchObject".into(),
                    SnmpValue::NoSuchInstance => "noSuchInstance".into(),
                    SnmpValue::EndOfMibView => "endOfMibView".into(),
                    v => py_any!(v),
                },
            )),
            Err(_) => None,
        },
        "bool" => typed!(SnmpBool, i),
        "int" => typed!(SnmpInt, i),
        "oct" => typed!(SnmpOctetString, i),
        "oid" => typed!(SnmpOid, i),
        "odesc" => typed!(SnmpObjectDescriptor, i),
        "real" => typed!(SnmpReal, i),
        "ip" => typed!(SnmpIpAddress, i),
        "c32" => typed!(SnmpCounter32, i),
        "g32" => typed!(SnmpGauge32, i),
        "tt" => typed!(SnmpTimeTicks, i),
        "opaque" => typed!(SnmpOpaque, i),
        "c64" => typed!(SnmpCounter64, i),
        "u32" => typed!(SnmpUInteger32, i),
        "null" => SnmpNull::from_ber(i).ok().map(|(t, _)| (t.len(), "null".into())),
        "seq" => SnmpSequence::from_ber(i).ok().map(|(t, _)| (t.len(), "seq".into())),
        "option" => SnmpOption::from_ber(i).ok().map(|(t, o)| (t.len(), format!("{} {}", o.tag, crate::hex(o.value)))),
        "rel" => SnmpRelativeOid::from_ber(i).ok().map(|(t, o)| {
            let mut s = String::new();
            for b in [&[0x2bu8][..], &[0x2b, 6], &[0x2b, 6, 1, 2], &[0x2b, 0x87, 0x67, 3, 4, 5, 6, 7, 8, 9], &[0x88, 0x37, 3], &[0x2b, 0x81]] {
                s += &oid(&o.normalize(&SnmpOid::from(b.to_vec())));
                s.push(' ');
            }
            (t.len(), s)
        }),
        "header" => BerHeader::from_ber(i)
            .ok()
            .map(|(t, h)| (t.len(), format!("{:?} {} {} {}", h.class, h.constructed, h.tag, h.length))),
        _ => panic!("{name}"),
    }
}

/// Whole-input decoders: `try_from`.
pub const WHOLES: &[&str] = &["v1", "v2c", "v3", "usm", "scoped", "data", "pdu", "get", "getbulk", "getresponse"];

pub fn whole(name: &str, i: &[u8]) -> Option<String> {
    match name {
        "v1" => SnmpV1Message::try_from(i).ok().map(|m| format!("{} {}", crate::hex(m.community), pdu(&m.pdu))),
        "v2c" => SnmpV2cMessage::try_from(i).ok().map(|m| format!("{} {}", crate::hex(m.community), pdu(&m.pdu))),
        "v3" => SnmpV3Message::try_from(i).ok().map(|m| {
            format!("{} {} {} {} {} {}", m.msg_id, m.flag_auth, m.flag_priv, m.flag_report, usm(&m.usm), data(&m.data))
        }),
        "usm" => UsmParameters::try_from(i).ok().map(|u| usm(&u)),
        "scoped" => ScopedPdu::try_from(i).ok().map(|s| format!("{} {}", crate::hex(s.engine_id), pdu(&s.pdu))),
        "data" => MsgData::try_from(i).ok().map(|d| data(&d)),
        "pdu" => SnmpPdu::try_from(i).ok().map(|p| pdu(&p)),
        "get" => SnmpGet::try_from(i).ok().map(|g| get(&g)),
        "getbulk" => SnmpGetBulk::try_from(i).ok().map(|_| "getbulk".into()),
        "getresponse" => SnmpGetResponse::try_from(i).ok().map(|_| "response".into()),
        _ => panic!("{name}"),
    }
}
