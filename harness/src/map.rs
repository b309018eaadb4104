//! Between the library's packets and the neutral records that the TLA+
//! specification uses. Enumeration variants go by name, never by number, so
//! that no numeric assignment of the code is trusted here.
use crate::json::*;
use bytes::{Bytes, BytesMut};
use mqttbytes::{v4, v5, Error, Protocol, QoS};

#[derive(Clone, PartialEq, Debug)]
pub enum Pk {
    V4(v4::Packet),
    V5(v5::Packet),
}

macro_rules! names {
    ($to:ident, $from:ident, $ty:path, $($v:ident),+) => {
        #[allow(unreachable_patterns)]
        pub fn $to(c: &$ty) -> &'static str {
            use $ty as E;
            match c { $(E::$v => stringify!($v),)+ _ => "?" }
        }
        pub fn $from(n: &str) -> $ty {
            use $ty as E;
            match n { $(x if x == stringify!($v) => E::$v,)+ _ => panic!("harness: code {}", n) }
        }
    };
}

names!(ca4, ca4f, v4::ConnectReturnCode, Success, RefusedProtocolVersion, BadClientId,
       ServiceUnavailable, BadUserNamePassword, NotAuthorized);
names!(ca5, ca5f, v5::ConnectReturnCode, Success, UnspecifiedError, MalformedPacket, ProtocolError,
       ImplementationSpecificError, UnsupportedProtocolVersion, ClientIdentifierNotValid,
       BadUserNamePassword, NotAuthorized, ServerUnavailable, ServerBusy, Banned,
       BadAuthenticationMethod, TopicNameInvalid, PacketTooLarge, QuotaExceeded,
       PayloadFormatInvalid, RetainNotSupported, QoSNotSupported, UseAnotherServer, ServerMoved,
       ConnectionRateExceeded);
names!(pa5, pa5f, v5::PubAckReason, Success, NoMatchingSubscribers, UnspecifiedError,
       ImplementationSpecificError, NotAuthorized, TopicNameInvalid, PacketIdentifierInUse,
       QuotaExceeded, PayloadFormatInvalid);
names!(pr5, pr5f, v5::PubRecReason, Success, NoMatchingSubscribers, UnspecifiedError,
       ImplementationSpecificError, NotAuthorized, TopicNameInvalid, PacketIdentifierInUse,
       QuotaExceeded, PayloadFormatInvalid);
names!(pl5, pl5f, v5::PubRelReason, Success, PacketIdentifierNotFound);
names!(pc5, pc5f, v5::PubCompReason, Success, PacketIdentifierNotFound);
names!(sa5, sa5f, v5::SubscribeReasonCode, QoS0, QoS1, QoS2, Unspecified, ImplementationSpecific,
       NotAuthorized, TopicFilterInvalid, PkidInUse, QuotaExceeded,
       SharedSubscriptionsNotSupported, SubscriptionIdNotSupported,
       WildcardSubscriptionsNotSupported);
names!(ua5, ua5f, v5::UnsubAckReason, Success, NoSubscriptionExisted, UnspecifiedError,
       ImplementationSpecificError, NotAuthorized, TopicFilterInvalid, PacketIdentifierInUse);
names!(di5, di5f, v5::DisconnectReasonCode, NormalDisconnection, DisconnectWithWillMessage,
       UnspecifiedError, MalformedPacket, ProtocolError, ImplementationSpecificError,
       NotAuthorized, ServerBusy, ServerShuttingDown, KeepAliveTimeout, SessionTakenOver,
       TopicFilterInvalid, TopicNameInvalid, ReceiveMaximumExceeded, TopicAliasInvalid,
       PacketTooLarge, MessageRateTooHigh, QuotaExceeded, AdministrativeAction,
       PayloadFormatInvalid, RetainNotSupported, QoSNotSupported, UseAnotherServer, ServerMoved,
       SharedSubscriptionNotSupported, ConnectionRateExceeded, MaximumConnectTime,
       SubscriptionIdentifiersNotSupported, WildcardSubscriptionsNotSupported);
names!(rh5, rh5f, v5::RetainForwardRule, OnEverySubscribe, OnNewSubscribe, Never);
names!(proto, protof, Protocol, V4, V5);

pub fn sa4(c: &v4::SubscribeReasonCode) -> &'static str {
    match c {
        v4::SubscribeReasonCode::Success(QoS::AtMostOnce) => "QoS0",
        v4::SubscribeReasonCode::Success(QoS::AtLeastOnce) => "QoS1",
        v4::SubscribeReasonCode::Success(QoS::ExactlyOnce) => "QoS2",
        v4::SubscribeReasonCode::Failure => "Failure",
    }
}
pub fn sa4f(n: &str) -> v4::SubscribeReasonCode {
    match n {
        "QoS0" => v4::SubscribeReasonCode::Success(QoS::AtMostOnce),
        "QoS1" => v4::SubscribeReasonCode::Success(QoS::AtLeastOnce),
        "QoS2" => v4::SubscribeReasonCode::Success(QoS::ExactlyOnce),
        _ => v4::SubscribeReasonCode::Failure,
    }
}
pub fn qn(q: &QoS) -> usize {
    match q {
        QoS::AtMostOnce => 0,
        QoS::AtLeastOnce => 1,
        QoS::ExactlyOnce => 2,
    }
}
pub fn qf(n: i64) -> QoS {
    match n {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}

// ------------------------------------------------------------ properties --

fn pv(name: &str, v: J) -> J {
    J::A(vec![s(name), v])
}

struct Props(Vec<J>);
impl Props {
    fn u8(&mut self, n: &str, v: &Option<u8>) {
        if let Some(v) = v {
            self.0.push(pv(n, y(&[*v])));
        }
    }
    fn u16(&mut self, n: &str, v: &Option<u16>) {
        if let Some(v) = v {
            self.0.push(pv(n, y(&[(*v >> 8) as u8, *v as u8])));
        }
    }
    fn u32(&mut self, n: &str, v: &Option<u32>) {
        if let Some(v) = v {
            self.0.push(pv(n, y(&[(*v >> 24) as u8, (*v >> 16) as u8, (*v >> 8) as u8, *v as u8])));
        }
    }
    fn text(&mut self, n: &str, v: &Option<String>) {
        if let Some(v) = v {
            self.0.push(pv(n, y(v.as_bytes())));
        }
    }
    fn data(&mut self, n: &str, v: &Option<Bytes>) {
        if let Some(v) = v {
            self.0.push(pv(n, y(v)));
        }
    }
    fn var(&mut self, n: &str, v: usize) {
        self.0.push(pv(n, J::A(vec![i(v)])));
    }
    fn pairs(&mut self, n: &str, v: &[(String, String)]) {
        for (k, x) in v {
            let mut b = vec![(k.len() >> 8) as u8, k.len() as u8];
            b.extend_from_slice(k.as_bytes());
            b.extend_from_slice(x.as_bytes());
            self.0.push(pv(n, J::Y(b)));
        }
    }
    fn done(self) -> J {
        J::A(self.0)
    }
}

struct In<'a>(&'a [J]);
impl<'a> In<'a> {
    fn last(&self, n: &str) -> Option<&'a J> {
        self.0.iter().rev().find(|p| p.arr()[0].str() == n).map(|p| &p.arr()[1])
    }
    fn u8(&self, n: &str) -> Option<u8> {
        self.last(n).map(|v| v.bytes()[0])
    }
    fn u16(&self, n: &str) -> Option<u16> {
        self.last(n).map(|v| {
            let b = v.bytes();
            (b[0] as u16) << 8 | b[1] as u16
        })
    }
    fn u32(&self, n: &str) -> Option<u32> {
        self.last(n).map(|v| v.bytes().iter().fold(0, |a, b| a << 8 | *b as u32))
    }
    fn text(&self, n: &str) -> Option<String> {
        self.last(n).map(|v| v.text())
    }
    fn data(&self, n: &str) -> Option<Bytes> {
        self.last(n).map(|v| Bytes::from(v.bytes()))
    }
    fn vars(&self, n: &str) -> Vec<usize> {
        self.0
            .iter()
            .filter(|p| p.arr()[0].str() == n)
            .map(|p| p.arr()[1].arr()[0].int() as usize)
            .collect()
    }
    fn pairs(&self, n: &str) -> Vec<(String, String)> {
        self.0
            .iter()
            .filter(|p| p.arr()[0].str() == n)
            .map(|p| {
                // a pair too long for the usual form
                if let J::O(_) = &p.arr()[1] {
                    return (p.arr()[1].get("k").text(), p.arr()[1].get("v").text());
                }
                let b = p.arr()[1].bytes();
                let k = (b[0] as usize) << 8 | b[1] as usize;
                (
                    String::from_utf8(b[2..2 + k].to_vec()).unwrap(),
                    String::from_utf8(b[2 + k..].to_vec()).unwrap(),
                )
            })
            .collect()
    }
}

fn connect_props(p: &Option<v5::ConnectProperties>) -> J {
    let mut o = Props(vec![]);
    if let Some(p) = p {
        o.u32("SessionExpiryInterval", &p.session_expiry_interval);
        o.text("AuthenticationMethod", &p.authentication_method);
        o.data("AuthenticationData", &p.authentication_data);
        o.u8("RequestProblemInformation", &p.request_problem_info);
        o.u8("RequestResponseInformation", &p.request_response_info);
        o.u16("ReceiveMaximum", &p.receive_maximum);
        o.u16("TopicAliasMaximum", &p.topic_alias_max);
        o.pairs("UserProperty", &p.user_properties);
        o.u32("MaximumPacketSize", &p.max_packet_size);
    }
    o.done()
}
fn will_props(p: &Option<v5::WillProperties>) -> J {
    let mut o = Props(vec![]);
    if let Some(p) = p {
        o.u8("PayloadFormatIndicator", &p.payload_format_indicator);
        o.u32("MessageExpiryInterval", &p.message_expiry_interval);
        o.text("ContentType", &p.content_type);
        o.text("ResponseTopic", &p.response_topic);
        o.data("CorrelationData", &p.correlation_data);
        o.u32("WillDelayInterval", &p.delay_interval);
        o.pairs("UserProperty", &p.user_properties);
    }
    o.done()
}
fn connack_props(p: &Option<v5::ConnAckProperties>) -> J {
    let mut o = Props(vec![]);
    if let Some(p) = p {
        o.u32("SessionExpiryInterval", &p.session_expiry_interval);
        o.text("AssignedClientIdentifier", &p.assigned_client_identifier);
        o.u16("ServerKeepAlive", &p.server_keep_alive);
        o.text("AuthenticationMethod", &p.authentication_method);
        o.data("AuthenticationData", &p.authentication_data);
        o.text("ResponseInformation", &p.response_information);
        o.text("ServerReference", &p.server_reference);
        o.text("ReasonString", &p.reason_string);
        o.u16("ReceiveMaximum", &p.receive_max);
        o.u16("TopicAliasMaximum", &p.topic_alias_max);
        o.u8("MaximumQos", &p.max_qos);
        o.u8("RetainAvailable", &p.retain_available);
        o.pairs("UserProperty", &p.user_properties);
        o.u32("MaximumPacketSize", &p.max_packet_size);
        o.u8("WildcardSubscriptionAvailable", &p.wildcard_subscription_available);
        o.u8("SubscriptionIdentifierAvailable", &p.subscription_identifiers_available);
        o.u8("SharedSubscriptionAvailable", &p.shared_subscription_available);
    }
    o.done()
}
fn publish_props(p: &Option<v5::PublishProperties>) -> J {
    let mut o = Props(vec![]);
    if let Some(p) = p {
        o.u8("PayloadFormatIndicator", &p.payload_format_indicator);
        o.u32("MessageExpiryInterval", &p.message_expiry_interval);
        o.text("ContentType", &p.content_type);
        o.text("ResponseTopic", &p.response_topic);
        o.data("CorrelationData", &p.correlation_data);
        for id in &p.subscription_identifiers {
            o.var("SubscriptionIdentifier", *id);
        }
        o.u16("TopicAlias", &p.topic_alias);
        o.pairs("UserProperty", &p.user_properties);
    }
    o.done()
}
fn reason_props(r: &Option<String>, u: &[(String, String)]) -> J {
    let mut o = Props(vec![]);
    o.text("ReasonString", r);
    o.pairs("UserProperty", u);
    o.done()
}
fn disconnect_props(p: &Option<v5::DisconnectProperties>) -> J {
    let mut o = Props(vec![]);
    if let Some(p) = p {
        o.u32("SessionExpiryInterval", &p.session_expiry_interval);
        o.text("ServerReference", &p.server_reference);
        o.text("ReasonString", &p.reason_string);
        o.pairs("UserProperty", &p.user_properties);
    }
    o.done()
}

macro_rules! rprops {
    ($p:expr) => {
        match $p {
            Some(p) => reason_props(&p.reason_string, &p.user_properties),
            None => J::A(vec![]),
        }
    };
}

// ------------------------------------------------------- packets to records --

fn none() -> J {
    J::A(vec![])
}
fn num(n: u16) -> J {
    J::I(n as i64)
}
fn ack(t: &str, pkid: u16, reason: &str, props: J) -> J {
    o(vec![("t", s(t)), ("pkid", num(pkid)), ("reason", s(reason)), ("props", props)])
}

pub fn to_json(p: &Pk) -> J {
    match p {
        Pk::V4(p) => to4(p),
        Pk::V5(p) => to5(p),
    }
}

fn to4(p: &v4::Packet) -> J {
    use v4::Packet::*;
    match p {
        Connect(c) => o(vec![
            ("t", s("Connect")),
            ("proto", s(proto(&c.protocol))),
            ("ka", num(c.keep_alive)),
            ("id", y(c.client_id.as_bytes())),
            ("clean", J::B(c.clean_session)),
            (
                "will",
                J::A(c.last_will.iter().map(|w| o(vec![
                    ("topic", y(w.topic.as_bytes())),
                    ("msg", y(&w.message)),
                    ("qos", i(qn(&w.qos))),
                    ("retain", J::B(w.retain)),
                    ("props", none()),
                ])).collect()),
            ),
            (
                "login",
                J::A(c.login.iter().map(|l| o(vec![
                    ("u", y(l.username.as_bytes())),
                    ("p", y(l.password.as_bytes())),
                ])).collect()),
            ),
            ("props", none()),
        ]),
        ConnAck(c) => o(vec![
            ("t", s("ConnAck")),
            ("sp", J::B(c.session_present)),
            ("code", s(ca4(&c.code))),
            ("props", none()),
        ]),
        Publish(p) => o(vec![
            ("t", s("Publish")),
            ("dup", J::B(p.dup)),
            ("qos", i(qn(&p.qos))),
            ("retain", J::B(p.retain)),
            ("topic", y(p.topic.as_bytes())),
            ("pkid", num(p.pkid)),
            ("props", none()),
            ("payload", y(&p.payload)),
        ]),
        PubAck(a) => ack("PubAck", a.pkid, "Success", none()),
        PubRec(a) => ack("PubRec", a.pkid, "Success", none()),
        PubRel(a) => ack("PubRel", a.pkid, "Success", none()),
        PubComp(a) => ack("PubComp", a.pkid, "Success", none()),
        Subscribe(x) => o(vec![
            ("t", s("Subscribe")),
            ("pkid", num(x.pkid)),
            (
                "filters",
                J::A(x.filters.iter().map(|f| o(vec![
                    ("path", y(f.path.as_bytes())),
                    ("qos", i(qn(&f.qos))),
                    ("nl", J::B(false)),
                    ("rap", J::B(false)),
                    ("rh", s("OnEverySubscribe")),
                ])).collect()),
            ),
            ("props", none()),
        ]),
        SubAck(x) => o(vec![
            ("t", s("SubAck")),
            ("pkid", num(x.pkid)),
            ("codes", J::A(x.return_codes.iter().map(|c| s(sa4(c))).collect())),
            ("props", none()),
        ]),
        Unsubscribe(x) => o(vec![
            ("t", s("Unsubscribe")),
            ("pkid", num(x.pkid)),
            ("topics", J::A(x.topics.iter().map(|t| y(t.as_bytes())).collect())),
            ("props", none()),
        ]),
        UnsubAck(x) => o(vec![
            ("t", s("UnsubAck")),
            ("pkid", num(x.pkid)),
            ("codes", none()),
            ("props", none()),
        ]),
        PingReq => o(vec![("t", s("PingReq"))]),
        PingResp => o(vec![("t", s("PingResp"))]),
        Disconnect => o(vec![
            ("t", s("Disconnect")),
            ("reason", s("NormalDisconnection")),
            ("props", none()),
        ]),
    }
}

fn to5(p: &v5::Packet) -> J {
    use v5::Packet::*;
    match p {
        Connect(c) => o(vec![
            ("t", s("Connect")),
            ("proto", s(proto(&c.protocol))),
            ("ka", num(c.keep_alive)),
            ("id", y(c.client_id.as_bytes())),
            ("clean", J::B(c.clean_session)),
            (
                "will",
                J::A(c.last_will.iter().map(|w| o(vec![
                    ("topic", y(w.topic.as_bytes())),
                    ("msg", y(&w.message)),
                    ("qos", i(qn(&w.qos))),
                    ("retain", J::B(w.retain)),
                    ("props", will_props(&w.properties)),
                ])).collect()),
            ),
            (
                "login",
                J::A(c.login.iter().map(|l| o(vec![
                    ("u", y(l.username.as_bytes())),
                    ("p", y(l.password.as_bytes())),
                ])).collect()),
            ),
            ("props", connect_props(&c.properties)),
        ]),
        ConnAck(c) => o(vec![
            ("t", s("ConnAck")),
            ("sp", J::B(c.session_present)),
            ("code", s(ca5(&c.code))),
            ("props", connack_props(&c.properties)),
        ]),
        Publish(p) => o(vec![
            ("t", s("Publish")),
            ("dup", J::B(p.dup)),
            ("qos", i(qn(&p.qos))),
            ("retain", J::B(p.retain)),
            ("topic", y(p.topic.as_bytes())),
            ("pkid", num(p.pkid)),
            ("props", publish_props(&p.properties)),
            ("payload", y(&p.payload)),
        ]),
        PubAck(a) => ack("PubAck", a.pkid, pa5(&a.reason), rprops!(&a.properties)),
        PubRec(a) => ack("PubRec", a.pkid, pr5(&a.reason), rprops!(&a.properties)),
        PubRel(a) => ack("PubRel", a.pkid, pl5(&a.reason), rprops!(&a.properties)),
        PubComp(a) => ack("PubComp", a.pkid, pc5(&a.reason), rprops!(&a.properties)),
        Subscribe(x) => o(vec![
            ("t", s("Subscribe")),
            ("pkid", num(x.pkid)),
            (
                "filters",
                J::A(x.filters.iter().map(|f| o(vec![
                    ("path", y(f.path.as_bytes())),
                    ("qos", i(qn(&f.qos))),
                    ("nl", J::B(f.nolocal)),
                    ("rap", J::B(f.preserve_retain)),
                    ("rh", s(rh5(&f.retain_forward_rule))),
                ])).collect()),
            ),
            ("props", {
                let mut o = Props(vec![]);
                if let Some(p) = &x.properties {
                    if let Some(id) = p.id {
                        o.var("SubscriptionIdentifier", id);
                    }
                    o.pairs("UserProperty", &p.user_properties);
                }
                o.done()
            }),
        ]),
        SubAck(x) => o(vec![
            ("t", s("SubAck")),
            ("pkid", num(x.pkid)),
            ("codes", J::A(x.return_codes.iter().map(|c| s(sa5(c))).collect())),
            ("props", rprops!(&x.properties)),
        ]),
        Unsubscribe(x) => o(vec![
            ("t", s("Unsubscribe")),
            ("pkid", num(x.pkid)),
            ("topics", J::A(x.filters.iter().map(|t| y(t.as_bytes())).collect())),
            ("props", match &x.properties {
                Some(p) => reason_props(&None, &p.user_properties),
                None => none(),
            }),
        ]),
        UnsubAck(x) => o(vec![
            ("t", s("UnsubAck")),
            ("pkid", num(x.pkid)),
            ("codes", J::A(x.reasons.iter().map(|c| s(ua5(c))).collect())),
            ("props", rprops!(&x.properties)),
        ]),
        PingReq => o(vec![("t", s("PingReq"))]),
        PingResp => o(vec![("t", s("PingResp"))]),
        Disconnect(d) => o(vec![
            ("t", s("Disconnect")),
            ("reason", s(di5(&d.reason_code))),
            ("props", disconnect_props(&d.properties)),
        ]),
    }
}

// ------------------------------------------------------- records to packets --

/// `pe`: bit 0, an empty property list means Some(empty) and not None; bit 1,
/// the same for the will.
pub fn from_json(ver: i64, j: &J, pe: i64) -> Pk {
    if ver == 4 {
        Pk::V4(from4(j))
    } else {
        Pk::V5(from5(j, pe))
    }
}

fn u16f(j: &J) -> u16 {
    j.int() as u16
}

fn from4(j: &J) -> v4::Packet {
    use v4::*;
    match j.get("t").str() {
        "Connect" => Packet::Connect(Connect {
            protocol: protof(j.get("proto").str()),
            keep_alive: u16f(j.get("ka")),
            client_id: j.get("id").text(),
            clean_session: j.get("clean").bool(),
            last_will: j.get("will").arr().first().map(|w| LastWill {
                topic: w.get("topic").text(),
                message: Bytes::from(w.get("msg").bytes()),
                qos: qf(w.get("qos").int()),
                retain: w.get("retain").bool(),
            }),
            login: j.get("login").arr().first().map(|l| Login {
                username: l.get("u").text(),
                password: l.get("p").text(),
            }),
        }),
        "ConnAck" => Packet::ConnAck(ConnAck {
            session_present: j.get("sp").bool(),
            code: ca4f(j.get("code").str()),
        }),
        "Publish" => Packet::Publish(Publish {
            dup: j.get("dup").bool(),
            qos: qf(j.get("qos").int()),
            retain: j.get("retain").bool(),
            topic: j.get("topic").text(),
            pkid: u16f(j.get("pkid")),
            payload: Bytes::from(j.get("payload").bytes()),
        }),
        "PubAck" => Packet::PubAck(PubAck { pkid: u16f(j.get("pkid")) }),
        "PubRec" => Packet::PubRec(PubRec { pkid: u16f(j.get("pkid")) }),
        "PubRel" => Packet::PubRel(PubRel { pkid: u16f(j.get("pkid")) }),
        "PubComp" => Packet::PubComp(PubComp { pkid: u16f(j.get("pkid")) }),
        "Subscribe" => Packet::Subscribe(Subscribe {
            pkid: u16f(j.get("pkid")),
            filters: j.get("filters").arr().iter().map(|f| SubscribeFilter {
                path: f.get("path").text(),
                qos: qf(f.get("qos").int()),
            }).collect(),
        }),
        "SubAck" => Packet::SubAck(SubAck {
            pkid: u16f(j.get("pkid")),
            return_codes: j.get("codes").arr().iter().map(|c| sa4f(c.str())).collect(),
        }),
        "Unsubscribe" => Packet::Unsubscribe(Unsubscribe {
            pkid: u16f(j.get("pkid")),
            topics: j.get("topics").arr().iter().map(|t| t.text()).collect(),
        }),
        "UnsubAck" => Packet::UnsubAck(UnsubAck { pkid: u16f(j.get("pkid")) }),
        "PingReq" => Packet::PingReq,
        "PingResp" => Packet::PingResp,
        "Disconnect" => Packet::Disconnect,
        t => panic!("harness: type {}", t),
    }
}

macro_rules! mk {
    ($props:expr, $pe:expr, $build:expr) => {{
        let l = In($props.arr());
        if l.0.is_empty() && !$pe {
            None
        } else {
            #[allow(clippy::redundant_closure_call)]
            Some($build(&l))
        }
    }};
}

macro_rules! ack5 {
    ($j:expr, $pe:expr, $T:ident, $P:ident, $reason:ident) => {
        Packet::$T($T {
            pkid: u16f($j.get("pkid")),
            reason: $reason($j.get("reason").str()),
            properties: mk!($j.get("props"), $pe & 1 != 0, |l: &In| $P {
                reason_string: l.text("ReasonString"),
                user_properties: l.pairs("UserProperty"),
            }),
        })
    };
}

fn from5(j: &J, pe: i64) -> v5::Packet {
    use v5::*;
    match j.get("t").str() {
        "Connect" => Packet::Connect(Connect {
            protocol: protof(j.get("proto").str()),
            keep_alive: u16f(j.get("ka")),
            client_id: j.get("id").text(),
            clean_session: j.get("clean").bool(),
            last_will: j.get("will").arr().first().map(|w| LastWill {
                topic: w.get("topic").text(),
                message: Bytes::from(w.get("msg").bytes()),
                qos: qf(w.get("qos").int()),
                retain: w.get("retain").bool(),
                properties: mk!(w.get("props"), pe & 2 != 0, |l: &In| WillProperties {
                    delay_interval: l.u32("WillDelayInterval"),
                    payload_format_indicator: l.u8("PayloadFormatIndicator"),
                    message_expiry_interval: l.u32("MessageExpiryInterval"),
                    content_type: l.text("ContentType"),
                    response_topic: l.text("ResponseTopic"),
                    correlation_data: l.data("CorrelationData"),
                    user_properties: l.pairs("UserProperty"),
                }),
            }),
            login: j.get("login").arr().first().map(|l| Login {
                username: l.get("u").text(),
                password: l.get("p").text(),
            }),
            properties: mk!(j.get("props"), pe & 1 != 0, |l: &In| ConnectProperties {
                session_expiry_interval: l.u32("SessionExpiryInterval"),
                receive_maximum: l.u16("ReceiveMaximum"),
                max_packet_size: l.u32("MaximumPacketSize"),
                topic_alias_max: l.u16("TopicAliasMaximum"),
                request_response_info: l.u8("RequestResponseInformation"),
                request_problem_info: l.u8("RequestProblemInformation"),
                user_properties: l.pairs("UserProperty"),
                authentication_method: l.text("AuthenticationMethod"),
                authentication_data: l.data("AuthenticationData"),
            }),
        }),
        "ConnAck" => Packet::ConnAck(ConnAck {
            session_present: j.get("sp").bool(),
            code: ca5f(j.get("code").str()),
            properties: mk!(j.get("props"), pe & 1 != 0, |l: &In| ConnAckProperties {
                session_expiry_interval: l.u32("SessionExpiryInterval"),
                receive_max: l.u16("ReceiveMaximum"),
                max_qos: l.u8("MaximumQos"),
                retain_available: l.u8("RetainAvailable"),
                max_packet_size: l.u32("MaximumPacketSize"),
                assigned_client_identifier: l.text("AssignedClientIdentifier"),
                topic_alias_max: l.u16("TopicAliasMaximum"),
                reason_string: l.text("ReasonString"),
                user_properties: l.pairs("UserProperty"),
                wildcard_subscription_available: l.u8("WildcardSubscriptionAvailable"),
                subscription_identifiers_available: l.u8("SubscriptionIdentifierAvailable"),
                shared_subscription_available: l.u8("SharedSubscriptionAvailable"),
                server_keep_alive: l.u16("ServerKeepAlive"),
                response_information: l.text("ResponseInformation"),
                server_reference: l.text("ServerReference"),
                authentication_method: l.text("AuthenticationMethod"),
                authentication_data: l.data("AuthenticationData"),
            }),
        }),
        "Publish" => Packet::Publish(Publish {
            dup: j.get("dup").bool(),
            qos: qf(j.get("qos").int()),
            retain: j.get("retain").bool(),
            topic: j.get("topic").text(),
            pkid: u16f(j.get("pkid")),
            properties: mk!(j.get("props"), pe & 1 != 0, |l: &In| PublishProperties {
                payload_format_indicator: l.u8("PayloadFormatIndicator"),
                message_expiry_interval: l.u32("MessageExpiryInterval"),
                topic_alias: l.u16("TopicAlias"),
                response_topic: l.text("ResponseTopic"),
                correlation_data: l.data("CorrelationData"),
                user_properties: l.pairs("UserProperty"),
                subscription_identifiers: l.vars("SubscriptionIdentifier"),
                content_type: l.text("ContentType"),
            }),
            payload: Bytes::from(j.get("payload").bytes()),
        }),
        "PubAck" => ack5!(j, pe, PubAck, PubAckProperties, pa5f),
        "PubRec" => ack5!(j, pe, PubRec, PubRecProperties, pr5f),
        "PubRel" => ack5!(j, pe, PubRel, PubRelProperties, pl5f),
        "PubComp" => ack5!(j, pe, PubComp, PubCompProperties, pc5f),
        "Subscribe" => Packet::Subscribe(Subscribe {
            pkid: u16f(j.get("pkid")),
            filters: j.get("filters").arr().iter().map(|f| SubscribeFilter {
                path: f.get("path").text(),
                qos: qf(f.get("qos").int()),
                nolocal: f.get("nl").bool(),
                preserve_retain: f.get("rap").bool(),
                retain_forward_rule: rh5f(f.get("rh").str()),
            }).collect(),
            properties: mk!(j.get("props"), pe & 1 != 0, |l: &In| SubscribeProperties {
                id: l.vars("SubscriptionIdentifier").last().copied(),
                user_properties: l.pairs("UserProperty"),
            }),
        }),
        "SubAck" => Packet::SubAck(SubAck {
            pkid: u16f(j.get("pkid")),
            return_codes: j.get("codes").arr().iter().map(|c| sa5f(c.str())).collect(),
            properties: mk!(j.get("props"), pe & 1 != 0, |l: &In| SubAckProperties {
                reason_string: l.text("ReasonString"),
                user_properties: l.pairs("UserProperty"),
            }),
        }),
        "Unsubscribe" => Packet::Unsubscribe(Unsubscribe {
            pkid: u16f(j.get("pkid")),
            filters: j.get("topics").arr().iter().map(|t| t.text()).collect(),
            properties: mk!(j.get("props"), pe & 1 != 0, |l: &In| UnsubscribeProperties {
                user_properties: l.pairs("UserProperty"),
            }),
        }),
        "UnsubAck" => Packet::UnsubAck(UnsubAck {
            pkid: u16f(j.get("pkid")),
            reasons: j.get("codes").arr().iter().map(|c| ua5f(c.str())).collect(),
            properties: mk!(j.get("props"), pe & 1 != 0, |l: &In| UnsubAckProperties {
                reason_string: l.text("ReasonString"),
                user_properties: l.pairs("UserProperty"),
            }),
        }),
        "PingReq" => Packet::PingReq,
        "PingResp" => Packet::PingResp,
        "Disconnect" => Packet::Disconnect(Disconnect {
            reason_code: di5f(j.get("reason").str()),
            properties: mk!(j.get("props"), pe & 1 != 0, |l: &In| DisconnectProperties {
                session_expiry_interval: l.u32("SessionExpiryInterval"),
                reason_string: l.text("ReasonString"),
                user_properties: l.pairs("UserProperty"),
                server_reference: l.text("ServerReference"),
            }),
        }),
        t => panic!("harness: type {}", t),
    }
}

// ------------------------------------------------------------- the calls --

pub fn write(p: &Pk, b: &mut BytesMut) -> Result<usize, Error> {
    match p {
        Pk::V4(p) => {
            use v4::Packet::*;
            match p {
                Connect(x) => x.write(b),
                ConnAck(x) => x.write(b),
                Publish(x) => x.write(b),
                PubAck(x) => x.write(b),
                PubRec(x) => x.write(b),
                PubRel(x) => x.write(b),
                PubComp(x) => x.write(b),
                Subscribe(x) => x.write(b),
                SubAck(x) => x.write(b),
                Unsubscribe(x) => x.write(b),
                UnsubAck(x) => x.write(b),
                PingReq => v4::PingReq.write(b),
                PingResp => v4::PingResp.write(b),
                Disconnect => v4::Disconnect.write(b),
            }
        }
        Pk::V5(p) => {
            use v5::Packet::*;
            match p {
                Connect(x) => x.write(b),
                ConnAck(x) => x.write(b),
                Publish(x) => x.write(b),
                PubAck(x) => x.write(b),
                PubRec(x) => x.write(b),
                PubRel(x) => x.write(b),
                PubComp(x) => x.write(b),
                Subscribe(x) => x.write(b),
                SubAck(x) => x.write(b),
                Unsubscribe(x) => x.write(b),
                UnsubAck(x) => x.write(b),
                PingReq => v5::PingReq.write(b),
                PingResp => v5::PingResp.write(b),
                Disconnect(x) => x.write(b),
            }
        }
    }
}

/// The length a packet reports for itself, where the type offers one.
pub fn own_len(p: &Pk) -> Option<usize> {
    match p {
        Pk::V4(p) => {
            use v4::Packet::*;
            match p {
                Connect(x) => Some(x.len()),
                Publish(x) => Some(x.len()),
                Subscribe(x) => Some(x.len()),
                SubAck(x) => Some(x.len()),
                _ => None,
            }
        }
        Pk::V5(p) => {
            use v5::Packet::*;
            match p {
                Connect(x) => Some(x.len()),
                Publish(x) => Some(x.len()),
                Subscribe(x) => Some(x.len()),
                SubAck(x) => Some(x.len()),
                Unsubscribe(x) => Some(x.len()),
                UnsubAck(x) => Some(x.len()),
                _ => None,
            }
        }
    }
}


pub fn read(ver: i64, b: &mut BytesMut, max: usize) -> Result<Pk, Error> {
    if ver == 4 {
        v4::read(b, max).map(Pk::V4)
    } else {
        v5::read(b, max).map(Pk::V5)
    }
}

/// The per-packet parser of the frame's type, on a frame cut by the caller.
/// None: the type has no parser of its own.
pub fn read_direct(ver: i64, frame: &[u8]) -> Option<Result<Pk, Error>> {
    read_as(ver, *frame.first()? >> 4, frame)
}

/// The parser of the given type.
pub fn read_as(ver: i64, num: u8, frame: &[u8]) -> Option<Result<Pk, Error>> {
    let fh = match mqttbytes::check(frame.iter(), usize::MAX) {
        Ok(fh) => fh,
        Err(_) => return None,
    };
    let b = Bytes::copy_from_slice(&frame[..fh.frame_length()]);
    if ver == 4 {
        use v4::*;
        Some(match num {
            1 => Connect::read(fh, b).map(Packet::Connect),
            2 => ConnAck::read(fh, b).map(Packet::ConnAck),
            3 => Publish::read(fh, b).map(Packet::Publish),
            4 => PubAck::read(fh, b).map(Packet::PubAck),
            5 => PubRec::read(fh, b).map(Packet::PubRec),
            6 => PubRel::read(fh, b).map(Packet::PubRel),
            7 => PubComp::read(fh, b).map(Packet::PubComp),
            8 => Subscribe::read(fh, b).map(Packet::Subscribe),
            9 => SubAck::read(fh, b).map(Packet::SubAck),
            10 => Unsubscribe::read(fh, b).map(Packet::Unsubscribe),
            11 => UnsubAck::read(fh, b).map(Packet::UnsubAck),
            _ => return None,
        }
        .map(Pk::V4))
    } else {
        use v5::*;
        Some(match num {
            1 => Connect::read(fh, b).map(Packet::Connect),
            2 => ConnAck::read(fh, b).map(Packet::ConnAck),
            3 => Publish::read(fh, b).map(Packet::Publish),
            4 => PubAck::read(fh, b).map(Packet::PubAck),
            5 => PubRec::read(fh, b).map(Packet::PubRec),
            6 => PubRel::read(fh, b).map(Packet::PubRel),
            7 => PubComp::read(fh, b).map(Packet::PubComp),
            8 => Subscribe::read(fh, b).map(Packet::Subscribe),
            9 => SubAck::read(fh, b).map(Packet::SubAck),
            10 => Unsubscribe::read(fh, b).map(Packet::Unsubscribe),
            11 => UnsubAck::read(fh, b).map(Packet::UnsubAck),
            14 => Disconnect::read(fh, b).map(Packet::Disconnect),
            _ => return None,
        }
        .map(Pk::V5))
    }
}

pub fn error(e: &Error) -> (String, usize) {
    let d = format!("{:?}", e);
    match d.split_once('(') {
        Some((n, rest)) => {
            let v = rest.trim_end_matches(')');
            (n.to_string(), v.parse::<usize>().unwrap_or(0))
        }
        None => (d, 0),
    }
}

pub fn err_json(e: &Error) -> J {
    let (n, v) = error(e);
    o(vec![("r", s("err")), ("e", s(&n)), ("n", i(v))])
}
