"""The protocol tables the code is compared with (Stratum V2 specification as the repository
documents it), written independently of the code."""

STR = "STR0_255"
MC = "stratumv2::mining::"
JC = "stratumv2::job_negotiation::"
CC = "stratumv2::common::"
TY = "stratumv2::types::"

# flag types: mask of defined bits
FLAGS = {
    MC + "SetupConnectionFlags": 0b111,
    MC + "SetupConnectionSuccessFlags": 0b11,
    JC + "SetupConnectionFlags": 0b1,
    JC + "SetupConnectionSuccessFlags": 0b0,
}

# string-coded enums: variant name -> text
CODES = {
    CC + "SetupConnectionErrorCode": {
        "UnsupportedFeatureFlags": b"unsupported-feature-flags",
        "UnsupportedProtocol": b"unsupported-protocol",
        "ProtocolVersionMismatch": b"protocol-version-mismatch",
    },
    MC + "OpenMiningChannelErrorCode": {
        "UnknownUser": b"unknown-user",
        "MaxTargetOutOfRange": b"max-target-out-of-range",
    },
}

PROTOCOL = {"Mining": 0, "JobNegotiation": 1, "TemplateDistribution": 2, "JobDistribution": 3}

# bounded types: name -> (header bytes, max length, is text, constructor root)
BOUNDED = {
    TY + "B0_31": (1, 31, False, "b0_31_new"),
    TY + "B0_32": (1, 32, False, "b0_32_new"),
    TY + "B0_255": (1, 255, False, "b0_255_new"),
    TY + "B0_64K": (2, 65535, False, "b0_64k_new"),
    TY + "B0_16M": (3, (1 << 24) - 1, False, "b0_16m_new"),
    TY + "STR0_32": (1, 32, True, "str0_32_new"),
    TY + "STR0_255": (1, 255, True, "str0_255_new"),
}

_SC = [("min_version", "u16"), ("max_version", "u16"), ("flags", "u32f"), ("endpoint_host", STR), ("endpoint_port", "u16"),
       ("vendor", STR), ("hardware_version", STR), ("firmware", STR), ("device_id", STR)]

# message type -> (constructor root, constructor arguments with their wire type in wire order, message id, channel bit)
MSGS = {
    CC + "ChannelEndpointChanged": ("new_channel_endpoint_changed", [("channel_id", "u32")], 0x03, True, "ChannelEndpointChanged"),
    MC + "SetupConnection": ("new_m_setup_connection", _SC, 0x00, False, "SetupConnection"),
    JC + "SetupConnection": ("new_jn_setup_connection", _SC, 0x00, False, "SetupConnection"),
    MC + "SetupConnectionSuccess": ("new_m_setup_connection_success", [("used_version", "u16"), ("flags", "u32f")], 0x01, False, "SetupConnectionSuccess"),
    JC + "SetupConnectionSuccess": ("new_jn_setup_connection_success", [("used_version", "u16"), ("flags", "u32f")], 0x01, False, "SetupConnectionSuccess"),
    MC + "SetupConnectionError": ("new_m_setup_connection_error", [("flags", "u32f"), ("error_code", "code")], 0x02, False, "SetupConnectionError"),
    JC + "SetupConnectionError": ("new_jn_setup_connection_error", [("flags", "u32f"), ("error_code", "code")], 0x02, False, "SetupConnectionError"),
    MC + "OpenStandardMiningChannel": ("new_open_standard", [("request_id", "u32"), ("user_identity", STR), ("nominal_hash_rate", "f32"), ("max_target", "U256")], 0x10, False, "OpenStandardMiningChannel"),
    MC + "OpenStandardMiningChannelSuccess": ("new_open_standard_success", [("request_id", "u32"), ("channel_id", "u32"), ("target", "U256"), ("extranonce_prefix", "B0_32"), ("group_channel_id", "u32")], 0x11, False, "OpenStandardMiningChannelSuccess"),
    MC + "OpenStandardMiningChannelError": ("new_open_standard_error", [("request_id", "u32"), ("error_code", "code")], 0x12, False, "OpenStandardMiningChannelError"),
    MC + "OpenExtendedMiningChannel": ("new_open_extended", [("request_id", "u32"), ("user_identity", STR), ("nominal_hash_rate", "f32"), ("max_target", "U256"), ("min_extranonce_size", "u16")], 0x13, False, "OpenExtendedMiningChannel"),
    MC + "OpenExtendedMiningChannelSuccess": ("new_open_extended_success", [("request_id", "u32"), ("channel_id", "u32"), ("target", "U256"), ("extranonce_size", "u16"), ("extranonce_prefix", "B0_32")], 0x14, False, "OpenExtendedMiningChannelSuccess"),
    MC + "OpenExtendedMiningChannelError": ("new_open_extended_error", [("request_id", "u32"), ("error_code", "code")], 0x15, False, "OpenExtendedMiningChannelError"),
    MC + "UpdateChannel": ("new_update_channel", [("channel_id", "u32"), ("nominal_hash_rate", "f32"), ("max_target", "U256")], 0x16, True, "UpdateChannel"),
}
# the SetupConnection union carries a protocol byte in front
UNION = CC + "SetupConnection"
UNION_CTORS = {"new_c_setup_connection_mining": (0, "Mining"), "new_c_setup_connection_jn": (1, "JobNegotiation")}

# message ids: MessageType variant -> (extension type, message type byte, channel bit)
MSGTYPES = {
    "SetupConnection": (0, 0x00, False), "SetupConnectionSuccess": (0, 0x01, False), "SetupConnectionError": (0, 0x02, False),
    "ChannelEndpointChanged": (0, 0x03, True),
    "OpenStandardMiningChannel": (0, 0x10, False), "OpenStandardMiningChannelSuccess": (0, 0x11, False), "OpenStandardMiningChannelError": (0, 0x12, False),
    "OpenExtendedMiningChannel": (0, 0x13, False), "OpenExtendedMiningChannelSuccess": (0, 0x14, False), "OpenExtendedMiningChannelError": (0, 0x15, False),
    "UpdateChannel": (0, 0x16, True), "UpdateChannelError": (0, 0x17, True), "CloseChannel": (0, 0x18, True), "SetExtranoncePrefix": (0, 0x19, True),
    "SubmitSharesStandard": (0, 0x1a, True), "SubmitSharesExtended": (0, 0x1b, True), "SubmitSharesSuccess": (0, 0x1c, True), "SubmitSharesError": (0, 0x1d, True),
    "NewMiningJob": (0, 0x1e, True), "NewExtendedMiningJob": (0, 0x1f, True), "SetNewPrevHash": (0, 0x20, True), "SetTarget": (0, 0x21, True),
    "SetCustomMiningJob": (0, 0x22, False), "SetCustomMiningJobSuccess": (0, 0x23, False), "SetCustomMiningJobError": (0, 0x24, False),
    "Reconnect": (0, 0x25, False), "SetGroupChannel": (0, 0x26, False),
    "TestMessage1": (0, 0xfe, False), "TestMessage2": (0, 0xff, True),
}
