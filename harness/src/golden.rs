//! Items as laid out in flash by the released version: (word size, data, bytes).
//! The special cases of the checksums (0, first byte 0x00 or 0xFF) are included.
pub const ITEMS: &[(usize, &[u8], &[u8])] = &[
    (1, &[], &[0x11,0x11,0x11,0x11,0x00,0x00,0x03,0xe2]),
    (1, &[0x00], &[0x2c,0x06,0x59,0xb0,0x01,0x00,0x5b,0xf0,0x00]),
    (1, &[0xff,0xff,0xff], &[0x7f,0x3d,0x4e,0xe4,0x03,0x00,0xb6,0xe0,0xff,0xff,0xff]),
    (1, &[0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08], &[0x24,0xe8,0x94,0xe7,0x08,0x00,0x50,0xfd,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08]),
    (1, &[0x73,0x65,0x71,0x75,0x65,0x6e,0x74,0x69,0x61,0x6c,0x2d,0x73,0x74,0x6f,0x72,0x61,0x67,0x65], &[0xac,0x63,0x69,0x5b,0x12,0x00,0x15,0xf8,0x73,0x65,0x71,0x75,0x65,0x6e,0x74,0x69,0x61,0x6c,0x2d,0x73,0x74,0x6f,0x72,0x61,0x67,0x65]),
    (1, &[0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27], &[0xe0,0xb3,0x67,0x58,0x28,0x00,0xa6,0xe8,0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27]),
    (1, &[0xba,0x8a,0xf1,0x8a], &[0x01,0x00,0x00,0x00,0x04,0x00,0x84,0xf7,0xba,0x8a,0xf1,0x8a]),
    (1, &[0x13,0xdd,0x9d,0xe6], &[0x01,0x56,0x34,0x12,0x04,0x00,0x84,0xf7,0x13,0xdd,0x9d,0xe6]),
    (1, &[0x71,0x8a,0x23,0x23], &[0xfe,0xef,0xcd,0xab,0x04,0x00,0x84,0xf7,0x71,0x8a,0x23,0x23]),
    (1, &[0xee,0xee,0xee,0xee], &[0xfe,0xff,0xff,0xff,0x04,0x00,0x84,0xf7,0xee,0xee,0xee,0xee]),
    (1, &[0x4b,0xfc,0x1d,0x8f], &[0x01,0x00,0x00,0x00,0x04,0x00,0x84,0xf7,0x4b,0xfc,0x1d,0x8f]),
    (1, &[0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff], &[0xe3,0x6d,0x61,0x97,0x20,0x00,0xf5,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff]),
    (4, &[], &[0x11,0x11,0x11,0x11,0x00,0x00,0x03,0xe2]),
    (4, &[0x00], &[0x2c,0x06,0x59,0xb0,0x01,0x00,0x5b,0xf0,0x00,0x00,0x00,0x00]),
    (4, &[0xff,0xff,0xff], &[0x7f,0x3d,0x4e,0xe4,0x03,0x00,0xb6,0xe0,0xff,0xff,0xff,0x00]),
    (4, &[0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08], &[0x24,0xe8,0x94,0xe7,0x08,0x00,0x50,0xfd,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08]),
    (4, &[0x73,0x65,0x71,0x75,0x65,0x6e,0x74,0x69,0x61,0x6c,0x2d,0x73,0x74,0x6f,0x72,0x61,0x67,0x65], &[0xac,0x63,0x69,0x5b,0x12,0x00,0x15,0xf8,0x73,0x65,0x71,0x75,0x65,0x6e,0x74,0x69,0x61,0x6c,0x2d,0x73,0x74,0x6f,0x72,0x61,0x67,0x65,0x00,0x00]),
    (4, &[0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27], &[0xe0,0xb3,0x67,0x58,0x28,0x00,0xa6,0xe8,0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27]),
    (4, &[0xba,0x8a,0xf1,0x8a], &[0x01,0x00,0x00,0x00,0x04,0x00,0x84,0xf7,0xba,0x8a,0xf1,0x8a]),
    (4, &[0x13,0xdd,0x9d,0xe6], &[0x01,0x56,0x34,0x12,0x04,0x00,0x84,0xf7,0x13,0xdd,0x9d,0xe6]),
    (4, &[0x71,0x8a,0x23,0x23], &[0xfe,0xef,0xcd,0xab,0x04,0x00,0x84,0xf7,0x71,0x8a,0x23,0x23]),
    (4, &[0xee,0xee,0xee,0xee], &[0xfe,0xff,0xff,0xff,0x04,0x00,0x84,0xf7,0xee,0xee,0xee,0xee]),
    (4, &[0x4b,0xfc,0x1d,0x8f], &[0x01,0x00,0x00,0x00,0x04,0x00,0x84,0xf7,0x4b,0xfc,0x1d,0x8f]),
    (4, &[0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff], &[0xe3,0x6d,0x61,0x97,0x20,0x00,0xf5,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff]),
    (8, &[], &[0x11,0x11,0x11,0x11,0x00,0x00,0x03,0xe2]),
    (8, &[0x00], &[0x2c,0x06,0x59,0xb0,0x01,0x00,0x5b,0xf0,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (8, &[0xff,0xff,0xff], &[0x7f,0x3d,0x4e,0xe4,0x03,0x00,0xb6,0xe0,0xff,0xff,0xff,0x00,0x00,0x00,0x00,0x00]),
    (8, &[0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08], &[0x24,0xe8,0x94,0xe7,0x08,0x00,0x50,0xfd,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08]),
    (8, &[0x73,0x65,0x71,0x75,0x65,0x6e,0x74,0x69,0x61,0x6c,0x2d,0x73,0x74,0x6f,0x72,0x61,0x67,0x65], &[0xac,0x63,0x69,0x5b,0x12,0x00,0x15,0xf8,0x73,0x65,0x71,0x75,0x65,0x6e,0x74,0x69,0x61,0x6c,0x2d,0x73,0x74,0x6f,0x72,0x61,0x67,0x65,0x00,0x00,0x00,0x00,0x00,0x00]),
    (8, &[0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27], &[0xe0,0xb3,0x67,0x58,0x28,0x00,0xa6,0xe8,0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27]),
    (8, &[0xba,0x8a,0xf1,0x8a], &[0x01,0x00,0x00,0x00,0x04,0x00,0x84,0xf7,0xba,0x8a,0xf1,0x8a,0x00,0x00,0x00,0x00]),
    (8, &[0x13,0xdd,0x9d,0xe6], &[0x01,0x56,0x34,0x12,0x04,0x00,0x84,0xf7,0x13,0xdd,0x9d,0xe6,0x00,0x00,0x00,0x00]),
    (8, &[0x71,0x8a,0x23,0x23], &[0xfe,0xef,0xcd,0xab,0x04,0x00,0x84,0xf7,0x71,0x8a,0x23,0x23,0x00,0x00,0x00,0x00]),
    (8, &[0xee,0xee,0xee,0xee], &[0xfe,0xff,0xff,0xff,0x04,0x00,0x84,0xf7,0xee,0xee,0xee,0xee,0x00,0x00,0x00,0x00]),
    (8, &[0x4b,0xfc,0x1d,0x8f], &[0x01,0x00,0x00,0x00,0x04,0x00,0x84,0xf7,0x4b,0xfc,0x1d,0x8f,0x00,0x00,0x00,0x00]),
    (8, &[0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff], &[0xe3,0x6d,0x61,0x97,0x20,0x00,0xf5,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff]),
    (16, &[], &[0x11,0x11,0x11,0x11,0x00,0x00,0x03,0xe2,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff]),
    (16, &[0x00], &[0x2c,0x06,0x59,0xb0,0x01,0x00,0x5b,0xf0,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (16, &[0xff,0xff,0xff], &[0x7f,0x3d,0x4e,0xe4,0x03,0x00,0xb6,0xe0,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (16, &[0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08], &[0x24,0xe8,0x94,0xe7,0x08,0x00,0x50,0xfd,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (16, &[0x73,0x65,0x71,0x75,0x65,0x6e,0x74,0x69,0x61,0x6c,0x2d,0x73,0x74,0x6f,0x72,0x61,0x67,0x65], &[0xac,0x63,0x69,0x5b,0x12,0x00,0x15,0xf8,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x73,0x65,0x71,0x75,0x65,0x6e,0x74,0x69,0x61,0x6c,0x2d,0x73,0x74,0x6f,0x72,0x61,0x67,0x65,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (16, &[0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27], &[0xe0,0xb3,0x67,0x58,0x28,0x00,0xa6,0xe8,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (16, &[0xba,0x8a,0xf1,0x8a], &[0x01,0x00,0x00,0x00,0x04,0x00,0x84,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xba,0x8a,0xf1,0x8a,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (16, &[0x13,0xdd,0x9d,0xe6], &[0x01,0x56,0x34,0x12,0x04,0x00,0x84,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x13,0xdd,0x9d,0xe6,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (16, &[0x71,0x8a,0x23,0x23], &[0xfe,0xef,0xcd,0xab,0x04,0x00,0x84,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x71,0x8a,0x23,0x23,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (16, &[0xee,0xee,0xee,0xee], &[0xfe,0xff,0xff,0xff,0x04,0x00,0x84,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xee,0xee,0xee,0xee,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (16, &[0x4b,0xfc,0x1d,0x8f], &[0x01,0x00,0x00,0x00,0x04,0x00,0x84,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x4b,0xfc,0x1d,0x8f,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (16, &[0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff], &[0xe3,0x6d,0x61,0x97,0x20,0x00,0xf5,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff]),
    (32, &[], &[0x11,0x11,0x11,0x11,0x00,0x00,0x03,0xe2,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff]),
    (32, &[0x00], &[0x2c,0x06,0x59,0xb0,0x01,0x00,0x5b,0xf0,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (32, &[0xff,0xff,0xff], &[0x7f,0x3d,0x4e,0xe4,0x03,0x00,0xb6,0xe0,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (32, &[0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08], &[0x24,0xe8,0x94,0xe7,0x08,0x00,0x50,0xfd,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (32, &[0x73,0x65,0x71,0x75,0x65,0x6e,0x74,0x69,0x61,0x6c,0x2d,0x73,0x74,0x6f,0x72,0x61,0x67,0x65], &[0xac,0x63,0x69,0x5b,0x12,0x00,0x15,0xf8,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x73,0x65,0x71,0x75,0x65,0x6e,0x74,0x69,0x61,0x6c,0x2d,0x73,0x74,0x6f,0x72,0x61,0x67,0x65,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (32, &[0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27], &[0xe0,0xb3,0x67,0x58,0x28,0x00,0xa6,0xe8,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (32, &[0xba,0x8a,0xf1,0x8a], &[0x01,0x00,0x00,0x00,0x04,0x00,0x84,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xba,0x8a,0xf1,0x8a,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (32, &[0x13,0xdd,0x9d,0xe6], &[0x01,0x56,0x34,0x12,0x04,0x00,0x84,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x13,0xdd,0x9d,0xe6,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (32, &[0x71,0x8a,0x23,0x23], &[0xfe,0xef,0xcd,0xab,0x04,0x00,0x84,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x71,0x8a,0x23,0x23,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (32, &[0xee,0xee,0xee,0xee], &[0xfe,0xff,0xff,0xff,0x04,0x00,0x84,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xee,0xee,0xee,0xee,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (32, &[0x4b,0xfc,0x1d,0x8f], &[0x01,0x00,0x00,0x00,0x04,0x00,0x84,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x4b,0xfc,0x1d,0x8f,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00]),
    (32, &[0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff], &[0xe3,0x6d,0x61,0x97,0x20,0x00,0xf5,0xf7,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff]),
];
