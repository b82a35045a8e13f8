//! Witness crate: never run. Each function names one public entry point of the repository at the
//! concrete types a user would use, so that the extractor can take the monomorphic MIR of
//! everything reachable from it. The analyses start from these functions, so they do not depend on
//! how the code behind the public API is divided into private functions, fields or modules.
#![allow(clippy::all)]

use noiseexplorer_nx::error::NoiseError;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::convert::TryFrom;
use std::io;
use std::str::FromStr;
use std::time::SystemTime;
use stratumv2::codec::{
    deserialize, frame, serialize, unframe, ByteParser, Deserializable, Frameable, Message,
    Serializable,
};
use stratumv2::common;
use stratumv2::error::{Error, Result};
use stratumv2::job_negotiation;
use stratumv2::mining;
use stratumv2::network::{
    new_channel_id, ConnectionEncryptor, Encryptor, NetworkConfig, NoiseConfig, Peer, ServerConfig,
};
use stratumv2::noise;
use stratumv2::types::unix_timestamp::{system_unix_time_to_u32, unix_u32_now};
use stratumv2::types::*;

/// Opaque writer: the analysis models its `write` as "takes some prefix, or fails".
pub struct W {
    _p: u8,
}
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Generic roots: instantiated by the extractor for every implementing type of the repository.
pub fn g_ser<T: Serializable>(x: &T, w: &mut W) -> Result<usize> {
    x.serialize(w)
}
pub fn g_serv<T: Serializable>(x: &T) -> Result<Vec<u8>> {
    serialize(x)
}
pub fn g_de<T: Deserializable>(p: &mut ByteParser) -> Result<T> {
    T::deserialize(p)
}
pub fn g_dev<T: Deserializable>(b: &[u8]) -> Result<T> {
    deserialize(b)
}
pub fn g_frame<T: Frameable>(x: &T) -> Result<Message> {
    frame(x)
}
pub fn g_unframe<T: Frameable>(m: &Message) -> Result<T> {
    unframe(m)
}
pub fn g_mt<T: Frameable>() -> MessageType {
    T::message_type()
}
pub fn g_eq<T: PartialEq<U>, U>(a: &T, b: &U) -> bool {
    a == b
}
pub fn g_clone<T: Clone>(x: &T) -> T {
    x.clone()
}
pub fn g_debug<T: std::fmt::Debug>(x: &T, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    x.fmt(f)
}
pub fn g_display<T: std::fmt::Display>(x: &T, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    x.fmt(f)
}
pub fn g_lowerhex<T: std::fmt::LowerHex>(x: &T, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    x.fmt(f)
}

// ---- codec -------------------------------------------------------------------------------
pub fn parser_new<'a>(b: &'a [u8], start: usize) -> ByteParser<'a> {
    ByteParser::new(b, start)
}
pub fn parser_next<'a>(p: &mut ByteParser<'a>, n: usize) -> Result<&'a [u8]> {
    p.next_by(n)
}
pub fn message_new(t: MessageType, p: Vec<u8>) -> Message {
    Message::new(t, p)
}

// ---- types -------------------------------------------------------------------------------
pub fn mt_new(e: u16, m: u8) -> Result<MessageType> {
    MessageType::new(e, m)
}
pub fn mt_ext(t: &MessageType) -> u16 {
    t.ext_type()
}
pub fn mt_msg(t: &MessageType) -> u8 {
    t.msg_type()
}
pub fn mt_chan(t: &MessageType) -> bool {
    t.channel_bit()
}
pub fn u24_new(v: u32) -> Result<U24> {
    U24::new(v)
}
pub fn u24_try_u32(v: u32) -> Result<U24> {
    U24::try_from(v)
}
pub fn u24_try_usize(v: usize) -> Result<U24> {
    U24::try_from(v)
}
pub fn u24_to_u32(v: U24) -> u32 {
    u32::from(v)
}
pub fn u24_to_usize(v: U24) -> usize {
    usize::from(v)
}
pub fn u256_from(a: [u8; 32]) -> U256 {
    U256::from(a)
}
pub fn u256_into(a: U256) -> [u8; 32] {
    a.into()
}
pub fn b0_31_new(v: Vec<u8>) -> Result<B0_31> {
    B0_31::new(v)
}
pub fn b0_32_new(v: Vec<u8>) -> Result<B0_32> {
    B0_32::new(v)
}
pub fn b0_255_new(v: Vec<u8>) -> Result<B0_255> {
    B0_255::new(v)
}
pub fn b0_64k_new(v: Vec<u8>) -> Result<B0_64K> {
    B0_64K::new(v)
}
pub fn b0_16m_new(v: Vec<u8>) -> Result<B0_16M> {
    B0_16M::new(v)
}
pub fn b0_32_into(v: B0_32) -> Vec<u8> {
    v.into()
}
pub fn str0_32_new(v: String) -> Result<STR0_32> {
    STR0_32::new(v)
}
pub fn str0_255_new(v: String) -> Result<STR0_255> {
    STR0_255::new(v)
}
pub fn str0_255_into(v: STR0_255) -> String {
    v.into()
}
pub fn time_to_u32(t: &SystemTime) -> Result<u32> {
    system_unix_time_to_u32(t)
}
pub fn time_now() -> Result<u32> {
    unix_u32_now()
}

// ---- common ------------------------------------------------------------------------------
pub fn proto_to_u8(p: common::Protocol) -> u8 {
    u8::from(p)
}
pub fn proto_ref_to_u8(p: &common::Protocol) -> u8 {
    u8::from(p)
}
pub fn proto_try_u8(b: u8) -> Result<common::Protocol> {
    common::Protocol::try_from(b)
}
pub fn scec_from_str(s: &str) -> Result<common::SetupConnectionErrorCode> {
    common::SetupConnectionErrorCode::from_str(s)
}
pub fn scec_try_string(s: String) -> Result<common::SetupConnectionErrorCode> {
    common::SetupConnectionErrorCode::try_from(s)
}
pub fn scec_try_str0(s: STR0_255) -> Result<common::SetupConnectionErrorCode> {
    common::SetupConnectionErrorCode::try_from(s)
}
pub fn scec_to_string(e: &common::SetupConnectionErrorCode) -> String {
    String::from(e)
}
pub fn scec_to_str0(e: &common::SetupConnectionErrorCode) -> STR0_255 {
    STR0_255::from(e)
}
pub fn omcec_from_str(s: &str) -> Result<mining::OpenMiningChannelErrorCode> {
    mining::OpenMiningChannelErrorCode::from_str(s)
}
pub fn omcec_try_string(s: String) -> Result<mining::OpenMiningChannelErrorCode> {
    mining::OpenMiningChannelErrorCode::try_from(s)
}
pub fn omcec_try_str0(s: STR0_255) -> Result<mining::OpenMiningChannelErrorCode> {
    mining::OpenMiningChannelErrorCode::try_from(s)
}
pub fn omcec_to_string(e: &mining::OpenMiningChannelErrorCode) -> String {
    String::from(e)
}
pub fn omcec_to_str0(e: &mining::OpenMiningChannelErrorCode) -> STR0_255 {
    STR0_255::from(e)
}

// ---- constructors ------------------------------------------------------------------------
pub fn new_m_setup_connection(
    min_version: u16,
    max_version: u16,
    flags: mining::SetupConnectionFlags,
    endpoint_host: String,
    endpoint_port: u16,
    vendor: String,
    hardware_version: String,
    firmware: String,
    device_id: String,
) -> Result<mining::SetupConnection> {
    mining::SetupConnection::new(
        min_version, max_version, flags, endpoint_host, endpoint_port, vendor, hardware_version,
        firmware, device_id,
    )
}
pub fn new_jn_setup_connection(
    min_version: u16,
    max_version: u16,
    flags: job_negotiation::SetupConnectionFlags,
    endpoint_host: String,
    endpoint_port: u16,
    vendor: String,
    hardware_version: String,
    firmware: String,
    device_id: String,
) -> Result<job_negotiation::SetupConnection> {
    job_negotiation::SetupConnection::new(
        min_version, max_version, flags, endpoint_host, endpoint_port, vendor, hardware_version,
        firmware, device_id,
    )
}
pub fn new_c_setup_connection_mining(
    min_version: u16,
    max_version: u16,
    flags: mining::SetupConnectionFlags,
    endpoint_host: String,
    endpoint_port: u16,
    vendor: String,
    hardware_version: String,
    firmware: String,
    device_id: String,
) -> Result<common::SetupConnection> {
    common::SetupConnection::new_mining(
        min_version, max_version, flags, endpoint_host, endpoint_port, vendor, hardware_version,
        firmware, device_id,
    )
}
pub fn new_c_setup_connection_jn(
    min_version: u16,
    max_version: u16,
    flags: job_negotiation::SetupConnectionFlags,
    endpoint_host: String,
    endpoint_port: u16,
    vendor: String,
    hardware_version: String,
    firmware: String,
    device_id: String,
) -> Result<common::SetupConnection> {
    common::SetupConnection::new_job_negotation(
        min_version, max_version, flags, endpoint_host, endpoint_port, vendor, hardware_version,
        firmware, device_id,
    )
}
pub fn new_m_setup_connection_success(
    used_version: u16,
    flags: mining::SetupConnectionSuccessFlags,
) -> Result<mining::SetupConnectionSuccess> {
    mining::SetupConnectionSuccess::new(used_version, flags)
}
pub fn new_jn_setup_connection_success(
    used_version: u16,
    flags: job_negotiation::SetupConnectionSuccessFlags,
) -> Result<job_negotiation::SetupConnectionSuccess> {
    job_negotiation::SetupConnectionSuccess::new(used_version, flags)
}
pub fn new_m_setup_connection_error(
    flags: mining::SetupConnectionFlags,
    error_code: common::SetupConnectionErrorCode,
) -> Result<mining::SetupConnectionError> {
    mining::SetupConnectionError::new(flags, error_code)
}
pub fn new_jn_setup_connection_error(
    flags: job_negotiation::SetupConnectionFlags,
    error_code: common::SetupConnectionErrorCode,
) -> Result<job_negotiation::SetupConnectionError> {
    job_negotiation::SetupConnectionError::new(flags, error_code)
}
pub fn new_channel_endpoint_changed(channel_id: u32) -> Result<common::ChannelEndpointChanged> {
    common::ChannelEndpointChanged::new(channel_id)
}
pub fn new_open_standard(
    request_id: u32,
    user_identity: String,
    nominal_hash_rate: f32,
    max_target: U256,
) -> Result<mining::OpenStandardMiningChannel> {
    mining::OpenStandardMiningChannel::new(request_id, user_identity, nominal_hash_rate, max_target)
}
pub fn new_open_standard_success(
    request_id: u32,
    channel_id: u32,
    target: U256,
    extranonce_prefix: Vec<u8>,
    group_channel_id: u32,
) -> Result<mining::OpenStandardMiningChannelSuccess> {
    mining::OpenStandardMiningChannelSuccess::new(
        request_id, channel_id, target, extranonce_prefix, group_channel_id,
    )
}
pub fn new_open_standard_error(
    request_id: u32,
    error_code: mining::OpenMiningChannelErrorCode,
) -> Result<mining::OpenStandardMiningChannelError> {
    mining::OpenStandardMiningChannelError::new(request_id, error_code)
}
pub fn new_open_extended(
    request_id: u32,
    user_identity: String,
    nominal_hash_rate: f32,
    max_target: U256,
    min_extranonce_size: u16,
) -> Result<mining::OpenExtendedMiningChannel> {
    mining::OpenExtendedMiningChannel::new(
        request_id, user_identity, nominal_hash_rate, max_target, min_extranonce_size,
    )
}
pub fn new_open_extended_success(
    request_id: u32,
    channel_id: u32,
    target: U256,
    extranonce_size: u16,
    extranonce_prefix: Vec<u8>,
) -> Result<mining::OpenExtendedMiningChannelSuccess> {
    mining::OpenExtendedMiningChannelSuccess::new(
        request_id, channel_id, target, extranonce_size, extranonce_prefix,
    )
}
pub fn new_open_extended_error(
    request_id: u32,
    error_code: mining::OpenMiningChannelErrorCode,
) -> Result<mining::OpenExtendedMiningChannelError> {
    mining::OpenExtendedMiningChannelError::new(request_id, error_code)
}
pub fn new_update_channel(
    channel_id: u32,
    nominal_hash_rate: f32,
    max_target: U256,
) -> Result<mining::UpdateChannel> {
    mining::UpdateChannel::new(channel_id, nominal_hash_rate, max_target)
}

// ---- certificates ------------------------------------------------------------------------
pub fn cert_new<'a>(
    version: u16,
    valid_from: u32,
    not_valid_after: u32,
    public_key: &'a noise::StaticPublicKey,
) -> Result<noise::SignedCertificate<'a>> {
    noise::SignedCertificate::new(version, valid_from, not_valid_after, public_key)
}
pub fn cert_msg_new(
    cert: &noise::SignedCertificate<'_>,
    signature: noise::Signature,
) -> noise::SignatureNoiseMessage {
    noise::SignatureNoiseMessage::new(cert, signature)
}
pub fn cert_msg_sign(
    kp: &noise::AuthorityKeyPair,
    cert: &noise::SignedCertificate<'_>,
) -> Result<noise::SignatureNoiseMessage> {
    noise::SignatureNoiseMessage::from_auth_key(kp, cert)
}
pub fn cert_format_new<'a>(
    authority_public_key: &'a str,
    static_public_key: &'a noise::StaticPublicKey,
    msg: &'a noise::SignatureNoiseMessage,
) -> Result<noise::CertificateFormat<'a>> {
    noise::CertificateFormat::new(authority_public_key, static_public_key, msg)
}
pub fn cert_verify(
    authority_public_key: &str,
    static_public_key: &noise::StaticPublicKey,
    msg: &noise::SignatureNoiseMessage,
) -> Result<()> {
    let c = noise::CertificateFormat::new(authority_public_key, static_public_key, msg)?;
    c.verify()
}
pub fn ser_cert_format(c: &noise::CertificateFormat<'_>, w: &mut W) -> Result<usize> {
    c.serialize(w)
}
pub fn ser_signed_cert(c: &noise::SignedCertificate<'_>, w: &mut W) -> Result<usize> {
    c.serialize(w)
}
pub fn authority_gen() -> noise::AuthorityKeyPair {
    noise::generate_authority_keypair()
}

// ---- noise session -----------------------------------------------------------------------
pub fn ns_init(initiator: bool, prologue: &[u8], s: Keypair) -> NoiseSession {
    NoiseSession::init_session(initiator, prologue, s)
}
pub fn ns_responder(s: Option<Keypair>) -> NoiseSession {
    noise::new_noise_responder(s)
}
pub fn ns_initiator() -> NoiseSession {
    noise::new_noise_initiator()
}
pub fn ns_send(n: &mut NoiseSession, b: &mut [u8]) -> std::result::Result<(), NoiseError> {
    n.send_message(b)
}
pub fn ns_recv(n: &mut NoiseSession, b: &mut [u8]) -> std::result::Result<(), NoiseError> {
    n.recv_message(b)
}
pub fn ns_rekey_local(n: &mut NoiseSession) {
    n.rekey_local_cipherstate()
}
pub fn ns_rekey_remote(n: &mut NoiseSession) {
    n.rekey_remote_cipherstate()
}
pub fn ns_clear_local(n: &mut NoiseSession) {
    n.clear_local_cipherstate()
}
pub fn ns_clear_remote(n: &mut NoiseSession) {
    n.clear_remote_cipherstate()
}
pub fn ns_end(n: NoiseSession) {
    n.end_session()
}
pub fn ns_hash(n: &NoiseSession) -> Option<[u8; 32]> {
    n.get_handshake_hash()
}
pub fn ns_count(n: &NoiseSession) -> u128 {
    n.get_message_count()
}
pub fn ns_remote(n: &NoiseSession) -> Option<PublicKey> {
    n.get_remote_static_public_key()
}
pub fn ns_is_transport(n: &NoiseSession) -> bool {
    n.is_transport()
}
pub fn ns_set_e(n: &mut NoiseSession, e: Keypair) {
    n.set_ephemeral_keypair(e)
}
pub fn pk_from_bytes(k: [u8; 32]) -> std::result::Result<PublicKey, NoiseError> {
    PublicKey::from_bytes(k)
}
pub fn pk_from_str(s: &str) -> std::result::Result<PublicKey, NoiseError> {
    PublicKey::from_str(s)
}
pub fn pk_empty() -> PublicKey {
    PublicKey::empty()
}
pub fn pk_is_empty(k: &PublicKey) -> bool {
    k.is_empty()
}
pub fn pk_as_bytes(k: &PublicKey) -> [u8; 32] {
    k.as_bytes()
}
pub fn sk_from_bytes(k: [u8; 32]) -> PrivateKey {
    PrivateKey::from_bytes(k)
}
pub fn sk_from_str(s: &str) -> std::result::Result<PrivateKey, NoiseError> {
    PrivateKey::from_str(s)
}
pub fn sk_public(k: &PrivateKey) -> std::result::Result<PublicKey, NoiseError> {
    k.generate_public_key()
}
pub fn sk_is_empty(k: &PrivateKey) -> bool {
    k.is_empty()
}
pub fn key_from_bytes(k: [u8; 32]) -> Key {
    Key::from_bytes(k)
}
pub fn key_from_str(s: &str) -> std::result::Result<Key, NoiseError> {
    Key::from_str(s)
}
pub fn key_is_empty(k: &Key) -> bool {
    k.is_empty()
}
pub fn key_public(k: &[u8; 32]) -> PublicKey {
    Key::generate_public_key(k)
}
pub fn psk_from_str(s: &str) -> std::result::Result<Psk, NoiseError> {
    Psk::from_str(s)
}
pub fn psk_is_empty(k: &Psk) -> bool {
    k.is_empty()
}
pub fn kp_default() -> Keypair {
    Keypair::default()
}
pub fn kp_empty() -> Keypair {
    Keypair::new_empty()
}
pub fn kp_from_private(k: PrivateKey) -> std::result::Result<Keypair, NoiseError> {
    Keypair::from_private_key(k)
}
pub fn kp_from_key(k: PrivateKey) -> std::result::Result<Keypair, NoiseError> {
    Keypair::from_key(k)
}
pub fn kp_public(k: &Keypair) -> PublicKey {
    k.get_public_key()
}
pub fn kp_is_empty(k: &Keypair) -> bool {
    k.is_empty()
}
pub fn kp_clear(k: &mut Keypair) {
    k.clear()
}

// ---- network -----------------------------------------------------------------------------
pub fn enc_inbound(s: Option<Keypair>) -> ConnectionEncryptor {
    ConnectionEncryptor::new_inbound(s)
}
pub fn enc_outbound() -> ConnectionEncryptor {
    ConnectionEncryptor::new_outbound()
}
pub fn enc_init(c: &mut ConnectionEncryptor) -> Result<Vec<u8>> {
    c.init_handshake()
}
pub fn enc_recv(c: &mut ConnectionEncryptor, b: &mut [u8]) -> Result<Vec<u8>> {
    c.recv_handshake(b)
}
pub fn enc_complete(c: &ConnectionEncryptor) -> bool {
    c.is_handshake_complete()
}
pub fn enc_remote(c: &ConnectionEncryptor) -> Option<PublicKey> {
    c.get_remote_pubkey()
}
pub fn peer_new(e: ConnectionEncryptor) -> Peer<ConnectionEncryptor> {
    Peer::new(e)
}
pub fn peer_pending(p: &Peer<ConnectionEncryptor>) -> Vec<Message> {
    p.get_pending_msgs()
}
pub fn channel_id() -> u32 {
    new_channel_id()
}
pub fn cfg_noise(m: noise::SignatureNoiseMessage, k: Keypair) -> NoiseConfig {
    NoiseConfig::new(m, k)
}
pub fn cfg_network(a: String, l: bool) -> NetworkConfig {
    NetworkConfig::new(a, l)
}
pub fn cfg_server(f: mining::SetupConnectionFlags) -> ServerConfig {
    ServerConfig::new(f)
}

// ---- comparisons and conversions of the bounded types ---------------------------------------
pub fn eq_b0_31_vec(a: &B0_31, b: &Vec<u8>) -> bool {
    *a == *b
}
pub fn eq_vec_b0_31(a: &Vec<u8>, b: &B0_31) -> bool {
    *a == *b
}
pub fn b0_31_into2(v: B0_31) -> Vec<u8> {
    v.into()
}
pub fn eq_b0_32_vec(a: &B0_32, b: &Vec<u8>) -> bool {
    *a == *b
}
pub fn eq_vec_b0_32(a: &Vec<u8>, b: &B0_32) -> bool {
    *a == *b
}
pub fn b0_32_into2(v: B0_32) -> Vec<u8> {
    v.into()
}
pub fn eq_b0_255_vec(a: &B0_255, b: &Vec<u8>) -> bool {
    *a == *b
}
pub fn eq_vec_b0_255(a: &Vec<u8>, b: &B0_255) -> bool {
    *a == *b
}
pub fn b0_255_into2(v: B0_255) -> Vec<u8> {
    v.into()
}
pub fn eq_b0_64k_vec(a: &B0_64K, b: &Vec<u8>) -> bool {
    *a == *b
}
pub fn eq_vec_b0_64k(a: &Vec<u8>, b: &B0_64K) -> bool {
    *a == *b
}
pub fn b0_64k_into2(v: B0_64K) -> Vec<u8> {
    v.into()
}
pub fn eq_b0_16m_vec(a: &B0_16M, b: &Vec<u8>) -> bool {
    *a == *b
}
pub fn eq_vec_b0_16m(a: &Vec<u8>, b: &B0_16M) -> bool {
    *a == *b
}
pub fn b0_16m_into2(v: B0_16M) -> Vec<u8> {
    v.into()
}
pub fn eq_str0_32_string(a: &STR0_32, b: &String) -> bool {
    *a == *b
}
pub fn eq_string_str0_32(a: &String, b: &STR0_32) -> bool {
    *a == *b
}
pub fn str0_32_into2(v: STR0_32) -> String {
    v.into()
}
pub fn eq_str0_255_string(a: &STR0_255, b: &String) -> bool {
    *a == *b
}
pub fn eq_string_str0_255(a: &String, b: &STR0_255) -> bool {
    *a == *b
}
pub fn str0_255_into2(v: STR0_255) -> String {
    v.into()
}
pub fn eq_u24_u32(a: &U24, b: &u32) -> bool {
    *a == *b
}
pub fn eq_u32_u24(a: &u32, b: &U24) -> bool {
    *a == *b
}
pub fn eq_u24_u24(a: &U24, b: &U24) -> bool {
    *a == *b
}
pub fn eq_u256_arr(a: &U256, b: &[u8; 32]) -> bool {
    *a == *b
}
pub fn eq_arr_u256(a: &[u8; 32], b: &U256) -> bool {
    *a == *b
}

// ---- errors ----------------------------------------------------------------------------------
pub fn ne_source(e: &NoiseError) -> Option<&(dyn std::error::Error + 'static)> {
    std::error::Error::source(e)
}
pub fn se_source(e: &Error) -> Option<&(dyn std::error::Error + 'static)> {
    std::error::Error::source(e)
}
pub fn conv_noise(e: NoiseError) -> Error {
    Error::from(e)
}
pub fn conv_io(e: io::Error) -> Error {
    Error::from(e)
}
pub fn conv_utf8(e: std::str::Utf8Error) -> Error {
    Error::from(e)
}
pub fn conv_from_utf8(e: std::string::FromUtf8Error) -> Error {
    Error::from(e)
}
pub fn conv_time(e: std::time::SystemTimeError) -> Error {
    Error::from(e)
}
pub fn conv_slice(e: std::array::TryFromSliceError) -> Error {
    Error::from(e)
}

// ---- remaining constructors --------------------------------------------------------------------
pub fn key_new() -> Key {
    Key::new()
}
pub fn psk_default() -> Psk {
    Psk::default()
}
pub fn psk_from_bytes(k: [u8; 32]) -> Psk {
    Psk::from_bytes(k)
}
pub fn sk_empty() -> PrivateKey {
    PrivateKey::empty()
}
pub fn chan_mgr_connections(m: stratumv2::network::ChannelManager) -> usize {
    m.channels.into_inner().unwrap().len()
}
pub fn chan_mgr_new() -> stratumv2::network::ChannelManager {
    stratumv2::network::ChannelManager::new()
}
// ---- threads ---------------------------------------------------------------------------------
fn movable<T: Send>() {}
fn sharable<T: Sync>() {}
pub fn mv_codec_message() {
    movable::<stratumv2::codec::Message>()
}
pub fn sh_codec_message() {
    sharable::<stratumv2::codec::Message>()
}
pub fn mv_codec_byteparser() {
    movable::<stratumv2::codec::ByteParser<'static>>()
}
pub fn sh_codec_byteparser() {
    sharable::<stratumv2::codec::ByteParser<'static>>()
}
pub fn mv_types_messagetype() {
    movable::<stratumv2::types::MessageType>()
}
pub fn sh_types_messagetype() {
    sharable::<stratumv2::types::MessageType>()
}
pub fn mv_error() {
    movable::<Error>()
}
pub fn sh_error() {
    sharable::<Error>()
}
pub fn mv_noiseerror() {
    movable::<NoiseError>()
}
pub fn sh_noiseerror() {
    sharable::<NoiseError>()
}
pub fn mv_u24() {
    movable::<U24>()
}
pub fn sh_u24() {
    sharable::<U24>()
}
pub fn mv_u256() {
    movable::<U256>()
}
pub fn sh_u256() {
    sharable::<U256>()
}
pub fn mv_b0_31() {
    movable::<B0_31>()
}
pub fn sh_b0_31() {
    sharable::<B0_31>()
}
pub fn mv_b0_32() {
    movable::<B0_32>()
}
pub fn sh_b0_32() {
    sharable::<B0_32>()
}
pub fn mv_b0_255() {
    movable::<B0_255>()
}
pub fn sh_b0_255() {
    sharable::<B0_255>()
}
pub fn mv_b0_64k() {
    movable::<B0_64K>()
}
pub fn sh_b0_64k() {
    sharable::<B0_64K>()
}
pub fn mv_b0_16m() {
    movable::<B0_16M>()
}
pub fn sh_b0_16m() {
    sharable::<B0_16M>()
}
pub fn mv_str0_32() {
    movable::<STR0_32>()
}
pub fn sh_str0_32() {
    sharable::<STR0_32>()
}
pub fn mv_str0_255() {
    movable::<STR0_255>()
}
pub fn sh_str0_255() {
    sharable::<STR0_255>()
}
pub fn mv_common_protocol() {
    movable::<common::Protocol>()
}
pub fn sh_common_protocol() {
    sharable::<common::Protocol>()
}
pub fn mv_common_setupconnection() {
    movable::<common::SetupConnection>()
}
pub fn sh_common_setupconnection() {
    sharable::<common::SetupConnection>()
}
pub fn mv_common_setupconnectionerrorcode() {
    movable::<common::SetupConnectionErrorCode>()
}
pub fn sh_common_setupconnectionerrorcode() {
    sharable::<common::SetupConnectionErrorCode>()
}
pub fn mv_common_channelendpointchanged() {
    movable::<common::ChannelEndpointChanged>()
}
pub fn sh_common_channelendpointchanged() {
    sharable::<common::ChannelEndpointChanged>()
}
pub fn mv_mining_setupconnection() {
    movable::<mining::SetupConnection>()
}
pub fn sh_mining_setupconnection() {
    sharable::<mining::SetupConnection>()
}
pub fn mv_mining_setupconnectionflags() {
    movable::<mining::SetupConnectionFlags>()
}
pub fn sh_mining_setupconnectionflags() {
    sharable::<mining::SetupConnectionFlags>()
}
pub fn mv_mining_setupconnectionsuccess() {
    movable::<mining::SetupConnectionSuccess>()
}
pub fn sh_mining_setupconnectionsuccess() {
    sharable::<mining::SetupConnectionSuccess>()
}
pub fn mv_mining_setupconnectionsuccessflags() {
    movable::<mining::SetupConnectionSuccessFlags>()
}
pub fn sh_mining_setupconnectionsuccessflags() {
    sharable::<mining::SetupConnectionSuccessFlags>()
}
pub fn mv_mining_setupconnectionerror() {
    movable::<mining::SetupConnectionError>()
}
pub fn sh_mining_setupconnectionerror() {
    sharable::<mining::SetupConnectionError>()
}
pub fn mv_mining_openstandardminingchannel() {
    movable::<mining::OpenStandardMiningChannel>()
}
pub fn sh_mining_openstandardminingchannel() {
    sharable::<mining::OpenStandardMiningChannel>()
}
pub fn mv_mining_openstandardminingchannelsuccess() {
    movable::<mining::OpenStandardMiningChannelSuccess>()
}
pub fn sh_mining_openstandardminingchannelsuccess() {
    sharable::<mining::OpenStandardMiningChannelSuccess>()
}
pub fn mv_mining_openstandardminingchannelerror() {
    movable::<mining::OpenStandardMiningChannelError>()
}
pub fn sh_mining_openstandardminingchannelerror() {
    sharable::<mining::OpenStandardMiningChannelError>()
}
pub fn mv_mining_openextendedminingchannel() {
    movable::<mining::OpenExtendedMiningChannel>()
}
pub fn sh_mining_openextendedminingchannel() {
    sharable::<mining::OpenExtendedMiningChannel>()
}
pub fn mv_mining_openextendedminingchannelsuccess() {
    movable::<mining::OpenExtendedMiningChannelSuccess>()
}
pub fn sh_mining_openextendedminingchannelsuccess() {
    sharable::<mining::OpenExtendedMiningChannelSuccess>()
}
pub fn mv_mining_openextendedminingchannelerror() {
    movable::<mining::OpenExtendedMiningChannelError>()
}
pub fn sh_mining_openextendedminingchannelerror() {
    sharable::<mining::OpenExtendedMiningChannelError>()
}
pub fn mv_mining_openminingchannelerrorcode() {
    movable::<mining::OpenMiningChannelErrorCode>()
}
pub fn sh_mining_openminingchannelerrorcode() {
    sharable::<mining::OpenMiningChannelErrorCode>()
}
pub fn mv_mining_updatechannel() {
    movable::<mining::UpdateChannel>()
}
pub fn sh_mining_updatechannel() {
    sharable::<mining::UpdateChannel>()
}
pub fn mv_job_negotiation_setupconnection() {
    movable::<job_negotiation::SetupConnection>()
}
pub fn sh_job_negotiation_setupconnection() {
    sharable::<job_negotiation::SetupConnection>()
}
pub fn mv_job_negotiation_setupconnectionflags() {
    movable::<job_negotiation::SetupConnectionFlags>()
}
pub fn sh_job_negotiation_setupconnectionflags() {
    sharable::<job_negotiation::SetupConnectionFlags>()
}
pub fn mv_job_negotiation_setupconnectionsuccess() {
    movable::<job_negotiation::SetupConnectionSuccess>()
}
pub fn sh_job_negotiation_setupconnectionsuccess() {
    sharable::<job_negotiation::SetupConnectionSuccess>()
}
pub fn mv_job_negotiation_setupconnectionsuccessflags() {
    movable::<job_negotiation::SetupConnectionSuccessFlags>()
}
pub fn sh_job_negotiation_setupconnectionsuccessflags() {
    sharable::<job_negotiation::SetupConnectionSuccessFlags>()
}
pub fn mv_job_negotiation_setupconnectionerror() {
    movable::<job_negotiation::SetupConnectionError>()
}
pub fn sh_job_negotiation_setupconnectionerror() {
    sharable::<job_negotiation::SetupConnectionError>()
}
pub fn mv_key() {
    movable::<Key>()
}
pub fn sh_key() {
    sharable::<Key>()
}
pub fn mv_keypair() {
    movable::<Keypair>()
}
pub fn sh_keypair() {
    sharable::<Keypair>()
}
pub fn mv_privatekey() {
    movable::<PrivateKey>()
}
pub fn sh_privatekey() {
    sharable::<PrivateKey>()
}
pub fn mv_psk() {
    movable::<Psk>()
}
pub fn sh_psk() {
    sharable::<Psk>()
}
pub fn mv_publickey() {
    movable::<PublicKey>()
}
pub fn sh_publickey() {
    sharable::<PublicKey>()
}
pub fn mv_noisesession() {
    movable::<NoiseSession>()
}
pub fn sh_noisesession() {
    sharable::<NoiseSession>()
}
pub fn mv_connectionencryptor() {
    movable::<ConnectionEncryptor>()
}
pub fn sh_connectionencryptor() {
    sharable::<ConnectionEncryptor>()
}
pub fn mv_peer_connectionencryptor() {
    movable::<Peer<ConnectionEncryptor>>()
}
pub fn sh_peer_connectionencryptor() {
    sharable::<Peer<ConnectionEncryptor>>()
}
pub fn mv_networkconfig() {
    movable::<NetworkConfig>()
}
pub fn sh_networkconfig() {
    sharable::<NetworkConfig>()
}
pub fn mv_noiseconfig() {
    movable::<NoiseConfig>()
}
pub fn sh_noiseconfig() {
    sharable::<NoiseConfig>()
}
pub fn mv_serverconfig() {
    movable::<ServerConfig>()
}
pub fn sh_serverconfig() {
    sharable::<ServerConfig>()
}
pub fn mv_network_channelmanager() {
    movable::<stratumv2::network::ChannelManager>()
}
pub fn sh_network_channelmanager() {
    sharable::<stratumv2::network::ChannelManager>()
}
pub fn mv_network_channel() {
    movable::<stratumv2::network::Channel>()
}
pub fn sh_network_channel() {
    sharable::<stratumv2::network::Channel>()
}
pub fn mv_noise_signaturenoisemessage() {
    movable::<noise::SignatureNoiseMessage>()
}
pub fn sh_noise_signaturenoisemessage() {
    sharable::<noise::SignatureNoiseMessage>()
}
pub fn mv_noise_signedcertificate() {
    movable::<noise::SignedCertificate<'static>>()
}
pub fn sh_noise_signedcertificate() {
    sharable::<noise::SignedCertificate<'static>>()
}
pub fn mv_noise_certificateformat() {
    movable::<noise::CertificateFormat<'static>>()
}
pub fn sh_noise_certificateformat() {
    sharable::<noise::CertificateFormat<'static>>()
}
pub fn mv_noise_authoritykeypair() {
    movable::<noise::AuthorityKeyPair>()
}
pub fn sh_noise_authoritykeypair() {
    sharable::<noise::AuthorityKeyPair>()
}
pub fn _unused(_: Error) {}
