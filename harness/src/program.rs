//! Colour programs by number.
use gfwx::*;

/// Colour programs: 0 none, 1..=4 the predefined ones (3 channels), 5.. user-defined.
pub fn program(id: i64) -> ColorTransformProgram {
    match id {
        0 => ColorTransformProgram::new(),
        1 => ColorTransformProgram::rgb_to_yuv(),
        2 => ColorTransformProgram::bgr_to_a710(),
        3 => ColorTransformProgram::rgb_to_a710(),
        4 => ColorTransformProgram::yuv444_to_yuv444(),
        5 => {
            // a two-channel chain with negative factors and an odd denominator
            let mut p = ColorTransformProgram::new();
            p.add_channel_transform(
                ChannelTransformBuilder::with_dest_channel(1).add_channel_factor(0, -3).set_denominator(5).set_chroma().build(),
            );
            p.add_channel_transform(ChannelTransformBuilder::with_dest_channel(0).add_channel_factor(1, 2).set_denominator(3).build());
            p
        }
        6 => {
            // across layers: channel 2 (layer 1) predicted from channels 0 and 1 (layer 0), for 2 channels x 2 layers
            let mut p = ColorTransformProgram::new();
            p.add_channel_transform(
                ChannelTransformBuilder::with_dest_channel(2)
                    .add_channel_factor(0, -1)
                    .add_channel_factor(1, -2)
                    .set_denominator(4)
                    .set_chroma()
                    .build(),
            );
            p.add_channel_transform(ChannelTransformBuilder::with_dest_channel(3).add_channel_factor(2, 1).add_channel_factor(1, -1).set_denominator(2).build());
            p
        }
        7 => {
            // chroma flags only, on channel 0
            let mut p = ColorTransformProgram::new();
            p.add_channel_transform(ChannelTransformBuilder::with_dest_channel(0).set_chroma().build());
            p
        }
        _ => ColorTransformProgram::new(),
    }
}

/// The intents take turns: they must not matter.
pub fn some_intent(w: u32, h: u32, channels: u16, quality: u16) -> Intent {
    match (w as u64 + h as u64 + channels as u64 + quality as u64) % 6 {
        1 => Intent::RGB,
        2 => Intent::RGBA,
        3 => Intent::BGR,
        4 => Intent::BGRA,
        5 => Intent::YUV444,
        _ => Intent::Generic,
    }
}
