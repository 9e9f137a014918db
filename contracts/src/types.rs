//! The packed field types of the repository, by family.
#[macro_export]
macro_rules! packed_tower {
    ($m:ident) => { $m! {
        PackedBinaryField1x1b PackedBinaryField2x1b PackedBinaryField1x2b PackedBinaryField4x1b PackedBinaryField2x2b PackedBinaryField1x4b
        PackedBinaryField8x1b PackedBinaryField4x2b PackedBinaryField2x4b PackedBinaryField1x8b
        PackedBinaryField16x1b PackedBinaryField8x2b PackedBinaryField4x4b PackedBinaryField2x8b PackedBinaryField1x16b
        PackedBinaryField32x1b PackedBinaryField16x2b PackedBinaryField8x4b PackedBinaryField4x8b PackedBinaryField2x16b PackedBinaryField1x32b
        PackedBinaryField64x1b PackedBinaryField32x2b PackedBinaryField16x4b PackedBinaryField8x8b PackedBinaryField4x16b PackedBinaryField2x32b PackedBinaryField1x64b
        PackedBinaryField128x1b PackedBinaryField64x2b PackedBinaryField32x4b PackedBinaryField16x8b PackedBinaryField8x16b PackedBinaryField4x32b PackedBinaryField2x64b PackedBinaryField1x128b
        PackedBinaryField256x1b PackedBinaryField128x2b PackedBinaryField64x4b PackedBinaryField32x8b PackedBinaryField16x16b PackedBinaryField8x32b PackedBinaryField4x64b PackedBinaryField2x128b
        PackedBinaryField512x1b PackedBinaryField256x2b PackedBinaryField128x4b PackedBinaryField64x8b PackedBinaryField32x16b PackedBinaryField16x32b PackedBinaryField8x64b PackedBinaryField4x128b
    } };
}
#[macro_export]
macro_rules! packed_aes {
    ($m:ident) => { $m! {
        PackedAESBinaryField1x8b PackedAESBinaryField2x8b PackedAESBinaryField1x16b PackedAESBinaryField4x8b PackedAESBinaryField2x16b PackedAESBinaryField1x32b
        PackedAESBinaryField8x8b PackedAESBinaryField4x16b PackedAESBinaryField2x32b PackedAESBinaryField1x64b
        PackedAESBinaryField16x8b PackedAESBinaryField8x16b PackedAESBinaryField4x32b PackedAESBinaryField2x64b PackedAESBinaryField1x128b
        PackedAESBinaryField32x8b PackedAESBinaryField16x16b PackedAESBinaryField8x32b PackedAESBinaryField4x64b PackedAESBinaryField2x128b
        PackedAESBinaryField64x8b PackedAESBinaryField32x16b PackedAESBinaryField16x32b PackedAESBinaryField8x64b PackedAESBinaryField4x128b
    } };
}
#[macro_export]
macro_rules! packed_polyval {
    ($m:ident) => { $m! { PackedBinaryPolyval1x128b PackedBinaryPolyval2x128b PackedBinaryPolyval4x128b } };
}
#[macro_export]
macro_rules! packed_sliced {
    ($m:ident) => { $m! {
        ByteSlicedAES16x128b ByteSlicedAES16x64b ByteSlicedAES2x16x64b ByteSlicedAES16x32b ByteSlicedAES4x16x32b ByteSlicedAES16x16b ByteSlicedAES8x16x16b ByteSlicedAES16x8b ByteSlicedAES16x16x8b
        ByteSlicedAES32x128b ByteSlicedAES32x64b ByteSlicedAES2x32x64b ByteSlicedAES32x32b ByteSlicedAES4x32x32b ByteSlicedAES32x16b ByteSlicedAES8x32x16b ByteSlicedAES32x8b ByteSlicedAES16x32x8b
        ByteSlicedAES64x128b ByteSlicedAES64x64b ByteSlicedAES2x64x64b ByteSlicedAES64x32b ByteSlicedAES4x64x32b ByteSlicedAES64x16b ByteSlicedAES8x64x16b ByteSlicedAES64x8b ByteSlicedAES16x64x8b
    } };
}
#[macro_export]
macro_rules! packed_sliced_bits {
    ($m:ident) => { $m! {
        ByteSliced16x128x1b ByteSliced8x128x1b ByteSliced4x128x1b ByteSliced2x128x1b ByteSliced1x128x1b
        ByteSliced16x256x1b ByteSliced8x256x1b ByteSliced4x256x1b ByteSliced2x256x1b ByteSliced1x256x1b
        ByteSliced16x512x1b ByteSliced8x512x1b ByteSliced4x512x1b ByteSliced2x512x1b ByteSliced1x512x1b
    } };
}
#[macro_export]
macro_rules! scalar_fields {
    ($m:ident) => { $m! {
        BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b
        AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b BinaryField128bPolyval
    } };
}
