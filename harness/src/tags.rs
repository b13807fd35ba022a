//! The tag catalogue as this harness expects it (transcribed from the Exif 2.32 /
//! TIFF 6.0 tag tables as the library documents them), and conversions between the
//! library's tags and a neutral model value.
use little_exif::exif_tag::ExifTag;
use little_exif::ifd::ExifTagGroup;
use little_exif::rational::{iR64, uR64};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
#[allow(non_camel_case_types)]
pub enum G { GENERIC, EXIF, INTEROP, GPS }
pub const GROUPS: [G; 4] = [G::GENERIC, G::EXIF, G::INTEROP, G::GPS];
impl G {
    pub fn lib(self) -> ExifTagGroup { match self { G::GENERIC => ExifTagGroup::GENERIC, G::EXIF => ExifTagGroup::EXIF, G::INTEROP => ExifTagGroup::INTEROP, G::GPS => ExifTagGroup::GPS } }
    pub fn of(g: ExifTagGroup) -> G { match g { ExifTagGroup::GENERIC => G::GENERIC, ExifTagGroup::EXIF => G::EXIF, ExifTagGroup::INTEROP => G::INTEROP, ExifTagGroup::GPS => G::GPS } }
}

/// A value as the model sees it; floats as bit patterns.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Bytes(Vec<u8>), Str(String), U16(Vec<u16>), U32(Vec<u32>), UR(Vec<(u32, u32)>),
    I8(Vec<i8>), I16(Vec<i16>), I32(Vec<i32>), IR(Vec<(i32, i32)>), F32(Vec<u32>), F64(Vec<u64>),
    /// image data referenced by offset (StripOffsets / ThumbnailOffset)
    Data(Vec<Vec<u8>>),
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        fn l<T: std::fmt::Debug>(n: &str, v: &[T], f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            if v.len() <= 12 { write!(f, "{n}{v:?}") } else { write!(f, "{n}{:?}..({} values)", &v[..8], v.len()) }
        }
        match self {
            Val::Bytes(v) => l("bytes", v, f), Val::U16(v) => l("u16", v, f), Val::U32(v) => l("u32", v, f), Val::UR(v) => l("ur64", v, f),
            Val::I8(v) => l("i8", v, f), Val::I16(v) => l("i16", v, f), Val::I32(v) => l("i32", v, f), Val::IR(v) => l("ir64", v, f),
            Val::F32(v) => l("f32bits", v, f), Val::F64(v) => l("f64bits", v, f),
            Val::Str(s) => if s.len() <= 60 { write!(f, "{s:?}") } else { write!(f, "str[{} bytes]", s.len()) },
            Val::Data(d) => write!(f, "data{:?}", d.iter().map(|x| (x.len(), crate::engine::fnv(x) & 0xffff)).collect::<Vec<_>>()),
        }
    }
}
/// A tag value with its Exif format code.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct V { pub fmt: u16, pub val: Val }

pub fn fmt_size(fmt: u16) -> usize { match fmt { 1 | 2 | 6 | 7 => 1, 3 | 8 => 2, 4 | 9 | 11 => 4, 5 | 10 | 12 => 8, _ => 0 } }

impl Val {
    /// number of components as stored in a directory entry
    pub fn count(&self) -> usize {
        match self {
            Val::Bytes(v) => v.len(), Val::Str(s) => s.len() + 1, Val::U16(v) => v.len(), Val::U32(v) => v.len(), Val::UR(v) => v.len(), Val::I8(v) => v.len(),
            Val::I16(v) => v.len(), Val::I32(v) => v.len(), Val::IR(v) => v.len(), Val::F32(v) => v.len(), Val::F64(v) => v.len(), Val::Data(d) => d.len(),
        }
    }
    /// the stored bytes, by the definition of the formats
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        let mut o = vec![];
        macro_rules! put { ($v:expr) => { for x in $v { if big { o.extend_from_slice(&x.to_be_bytes()) } else { o.extend_from_slice(&x.to_le_bytes()) } } } }
        match self {
            Val::Bytes(v) => o.extend_from_slice(v),
            Val::Str(s) => { o.extend_from_slice(s.as_bytes()); o.push(0); }
            Val::U16(v) => put!(v), Val::U32(v) => put!(v), Val::I8(v) => put!(v), Val::I16(v) => put!(v), Val::I32(v) => put!(v), Val::F32(v) => put!(v), Val::F64(v) => put!(v),
            Val::UR(v) => for (a, b) in v { put!([*a, *b]) },
            Val::IR(v) => for (a, b) in v { put!([*a, *b]) },
            Val::Data(_) => {}
        }
        o
    }
    pub fn is_empty(&self) -> bool { match self { Val::Str(_) => false, Val::Data(d) => d.is_empty(), v => v.count() == 0 } }
}

/// library payload type <-> model value
pub trait Payload: Sized { fn to_val(&self) -> Val; fn from_val(v: &Val) -> Option<Self>; }
macro_rules! payload { ($t:ty, $var:ident, $x:ident => $to:expr, $y:ident => $from:expr) => {
    impl Payload for $t {
        fn to_val(&self) -> Val { let $x = self; Val::$var($to) }
        fn from_val(v: &Val) -> Option<Self> { if let Val::$var($y) = v { Some($from) } else { None } }
    }
}; }
payload!(Vec<u8>, Bytes, x => x.clone(), y => y.clone());
payload!(String, Str, x => x.clone(), y => y.clone());
payload!(Vec<u16>, U16, x => x.clone(), y => y.clone());
payload!(Vec<u32>, U32, x => x.clone(), y => y.clone());
payload!(Vec<i8>, I8, x => x.clone(), y => y.clone());
payload!(Vec<i16>, I16, x => x.clone(), y => y.clone());
payload!(Vec<i32>, I32, x => x.clone(), y => y.clone());
payload!(Vec<f32>, F32, x => x.iter().map(|f| f.to_bits()).collect(), y => y.iter().map(|f| f32::from_bits(*f)).collect());
payload!(Vec<f64>, F64, x => x.iter().map(|f| f.to_bits()).collect(), y => y.iter().map(|f| f64::from_bits(*f)).collect());
payload!(Vec<uR64>, UR, x => x.iter().map(|r| (r.nominator, r.denominator)).collect(), y => y.iter().map(|r| uR64 { nominator: r.0, denominator: r.1 }).collect());
payload!(Vec<iR64>, IR, x => x.iter().map(|r| (r.nominator, r.denominator)).collect(), y => y.iter().map(|r| iR64 { nominator: r.0, denominator: r.1 }).collect());

#[derive(Debug, Clone, Copy)]
pub struct Row { pub name: &'static str, pub hex: u16, pub fmt: u16, pub count: u32, pub writable: bool, pub group: G }

macro_rules! catalogue { ($( ($n:ident, $h:expr, $f:expr, $c:expr, $w:expr, $g:ident), )*) => {
    pub const TABLE: &[Row] = &[ $( Row { name: stringify!($n), hex: $h, fmt: $f, count: $c, writable: $w, group: G::$g }, )* ];
    /// Builds the library's tag through its public constructor; None if the library's
    /// payload type is not the one the catalogue says.
    pub fn make_known(hex: u16, g: G, v: &Val) -> Option<ExifTag> {
        match (hex, g) {
            $( ($h, G::$g) => Payload::from_val(v).map(ExifTag::$n), )*
            (0x0111, G::GENERIC) => if let Val::Data(d) = v { Some(ExifTag::StripOffsets(vec![], d.clone())) } else { None },
            (0x0117, G::GENERIC) => if let Val::U32(d) = v { Some(ExifTag::StripByteCounts(d.clone())) } else { None },
            (0x0201, G::GENERIC) => if let Val::Data(d) = v { Some(ExifTag::ThumbnailOffset(vec![], d.first().cloned().unwrap_or_default())) } else { None },
            (0x0202, G::GENERIC) => if let Val::U32(d) = v { Some(ExifTag::ThumbnailLength(d.clone())) } else { None },
            _ => None,
        }
    }
    /// The variant name (None for the Unknown variants) and payload of a library tag.
    pub fn open(t: &ExifTag) -> (Option<&'static str>, V) {
        match t {
            $( ExifTag::$n(v) => (Some(stringify!($n)), V { fmt: $f, val: v.to_val() }), )*
            ExifTag::StripOffsets(_, d) => (Some("StripOffsets"), V { fmt: 4, val: Val::Data(d.clone()) }),
            ExifTag::StripByteCounts(d) => (Some("StripByteCounts"), V { fmt: 4, val: Val::U32(d.clone()) }),
            ExifTag::ThumbnailOffset(_, d) => (Some("ThumbnailOffset"), V { fmt: 4, val: Val::Data(vec![d.clone()]) }),
            ExifTag::ThumbnailLength(d) => (Some("ThumbnailLength"), V { fmt: 4, val: Val::U32(d.clone()) }),
            ExifTag::UnknownINT8U(v, _, _) => (None, V { fmt: 1, val: v.to_val() }),
            ExifTag::UnknownSTRING(v, _, _) => (None, V { fmt: 2, val: v.to_val() }),
            ExifTag::UnknownINT16U(v, _, _) => (None, V { fmt: 3, val: v.to_val() }),
            ExifTag::UnknownINT32U(v, _, _) => (None, V { fmt: 4, val: v.to_val() }),
            ExifTag::UnknownRATIONAL64U(v, _, _) => (None, V { fmt: 5, val: v.to_val() }),
            ExifTag::UnknownINT8S(v, _, _) => (None, V { fmt: 6, val: v.to_val() }),
            ExifTag::UnknownUNDEF(v, _, _) => (None, V { fmt: 7, val: v.to_val() }),
            ExifTag::UnknownINT16S(v, _, _) => (None, V { fmt: 8, val: v.to_val() }),
            ExifTag::UnknownINT32S(v, _, _) => (None, V { fmt: 9, val: v.to_val() }),
            ExifTag::UnknownRATIONAL64S(v, _, _) => (None, V { fmt: 10, val: v.to_val() }),
            ExifTag::UnknownFLOAT(v, _, _) => (None, V { fmt: 11, val: v.to_val() }),
            ExifTag::UnknownDOUBLE(v, _, _) => (None, V { fmt: 12, val: v.to_val() }),
            // a tag added to the library's catalogue after this table was made
            #[allow(unreachable_patterns)]
            other => { let f = other.format().as_u16(); (Some("(new)"), V { fmt: f, val: from_bytes(f, &other.value_as_u8_vec(&little_exif::endian::Endian::Big), true).unwrap_or(Val::Bytes(vec![])) }) }
        }
    }
}; }
catalogue![
    (GPSVersionID, 0x0000, 1, 4, true, GPS),
    (GPSLatitudeRef, 0x0001, 2, 2, true, GPS),
    (GPSLatitude, 0x0002, 5, 3, true, GPS),
    (GPSLongitudeRef, 0x0003, 2, 2, true, GPS),
    (GPSLongitude, 0x0004, 5, 3, true, GPS),
    (GPSAltitudeRef, 0x0005, 1, 1, true, GPS),
    (GPSAltitude, 0x0006, 5, 1, true, GPS),
    (GPSTimeStamp, 0x0007, 5, 3, true, GPS),
    (GPSSatellites, 0x0008, 2, 0, true, GPS),
    (GPSStatus, 0x0009, 2, 2, true, GPS),
    (GPSMeasureMode, 0x000a, 2, 2, true, GPS),
    (GPSDOP, 0x000b, 5, 1, true, GPS),
    (GPSSpeedRef, 0x000c, 2, 2, true, GPS),
    (GPSSpeed, 0x000d, 5, 1, true, GPS),
    (GPSTrackRef, 0x000e, 2, 2, true, GPS),
    (GPSTrack, 0x000f, 5, 1, true, GPS),
    (GPSImgDirectionRef, 0x0010, 2, 2, true, GPS),
    (GPSImgDirection, 0x0011, 5, 1, true, GPS),
    (GPSMapDatum, 0x0012, 2, 0, true, GPS),
    (GPSDestLatitudeRef, 0x0013, 2, 2, true, GPS),
    (GPSDestLatitude, 0x0014, 5, 3, true, GPS),
    (GPSDestLongitudeRef, 0x0015, 2, 2, true, GPS),
    (GPSDestLongitude, 0x0016, 5, 3, true, GPS),
    (GPSDestBearingRef, 0x0017, 2, 2, true, GPS),
    (GPSDestBearing, 0x0018, 5, 1, true, GPS),
    (GPSDestDistanceRef, 0x0019, 2, 2, true, GPS),
    (GPSDestDistance, 0x001a, 5, 1, true, GPS),
    (GPSProcessingMethod, 0x001b, 7, 0, true, GPS),
    (GPSAreaInformation, 0x001c, 7, 0, true, GPS),
    (GPSDateStamp, 0x001d, 2, 11, true, GPS),
    (GPSDifferential, 0x001e, 3, 1, true, GPS),
    (GPSHPositioningError, 0x001f, 5, 1, true, GPS),
    (InteroperabilityIndex, 0x0001, 2, 4, true, INTEROP),
    (InteroperabilityVersion, 0x0002, 7, 0, true, INTEROP),
    (ImageWidth, 0x0100, 4, 1, true, GENERIC),
    (ImageHeight, 0x0101, 4, 1, true, GENERIC),
    (BitsPerSample, 0x0102, 3, 3, true, GENERIC),
    (Compression, 0x0103, 3, 1, true, GENERIC),
    (PhotometricInterpretation, 0x0106, 3, 1, true, GENERIC),
    (CellWidth, 0x0108, 3, 1, true, GENERIC),
    (CellHeight, 0x0109, 3, 1, true, GENERIC),
    (ImageDescription, 0x010e, 2, 0, true, GENERIC),
    (Make, 0x010f, 2, 0, true, GENERIC),
    (Model, 0x0110, 2, 0, true, GENERIC),
    (Orientation, 0x0112, 3, 1, true, GENERIC),
    (SamplesPerPixel, 0x0115, 3, 1, true, GENERIC),
    (RowsPerStrip, 0x0116, 4, 1, true, GENERIC),
    (XResolution, 0x011a, 5, 1, true, GENERIC),
    (YResolution, 0x011b, 5, 1, true, GENERIC),
    (PlanarConfiguration, 0x011c, 3, 1, true, GENERIC),
    (ResolutionUnit, 0x0128, 3, 1, true, GENERIC),
    (TransferFunction, 0x012d, 3, 3, true, GENERIC),
    (Software, 0x0131, 2, 0, true, GENERIC),
    (ModifyDate, 0x0132, 2, 20, true, GENERIC),
    (Artist, 0x013b, 2, 0, true, GENERIC),
    (WhitePoint, 0x013e, 5, 2, true, GENERIC),
    (PrimaryChromaticities, 0x013f, 5, 6, true, GENERIC),
    (ColorMap, 0x0140, 3, 0, true, GENERIC),
    (YCbCrCoefficients, 0x0211, 5, 3, true, GENERIC),
    (YCbCrSubSampling, 0x0212, 3, 2, true, GENERIC),
    (YCbCrPositioning, 0x0213, 3, 1, true, GENERIC),
    (ReferenceBlackWhite, 0x0214, 5, 6, true, GENERIC),
    (Copyright, 0x8298, 2, 0, true, GENERIC),
    (ExposureTime, 0x829a, 5, 1, true, EXIF),
    (FNumber, 0x829d, 5, 1, true, EXIF),
    (ExifOffset, 0x8769, 4, 1, false, GENERIC),
    (ExposureProgram, 0x8822, 3, 1, true, EXIF),
    (SpectralSensitivity, 0x8824, 2, 0, true, EXIF),
    (GPSInfo, 0x8825, 4, 1, true, GENERIC),
    (ISO, 0x8827, 3, 0, true, EXIF),
    (OECF, 0x8828, 7, 0, false, EXIF),
    (SensitivityType, 0x8830, 3, 1, true, EXIF),
    (StandardOutputSensitivity, 0x8831, 4, 1, true, EXIF),
    (RecommendedExposureIndex, 0x8832, 4, 1, true, EXIF),
    (ISOSpeed, 0x8833, 4, 1, true, EXIF),
    (ISOSpeedLatitudeyyy, 0x8834, 4, 1, true, EXIF),
    (ISOSpeedLatitudezzz, 0x8835, 4, 1, true, EXIF),
    (ExifVersion, 0x9000, 7, 4, true, EXIF),
    (DateTimeOriginal, 0x9003, 2, 20, true, EXIF),
    (CreateDate, 0x9004, 2, 20, true, EXIF),
    (OffsetTime, 0x9010, 2, 0, true, EXIF),
    (OffsetTimeOriginal, 0x9011, 2, 0, true, EXIF),
    (OffsetTimeDigitized, 0x9012, 2, 0, true, EXIF),
    (ComponentsConfiguration, 0x9101, 7, 0, true, EXIF),
    (CompressedBitsPerPixel, 0x9102, 5, 1, true, EXIF),
    (ShutterSpeedValue, 0x9201, 10, 1, true, EXIF),
    (ApertureValue, 0x9202, 5, 1, true, EXIF),
    (BrightnessValue, 0x9203, 10, 1, true, EXIF),
    (ExposureCompensation, 0x9204, 10, 1, true, EXIF),
    (MaxApertureValue, 0x9205, 5, 1, true, EXIF),
    (SubjectDistance, 0x9206, 5, 1, true, EXIF),
    (MeteringMode, 0x9207, 3, 1, true, EXIF),
    (LightSource, 0x9208, 3, 1, true, EXIF),
    (Flash, 0x9209, 3, 1, true, EXIF),
    (FocalLength, 0x920a, 5, 1, true, EXIF),
    (SubjectArea, 0x9214, 3, 4, true, EXIF),
    (MakerNote, 0x927c, 7, 0, true, EXIF),
    (UserComment, 0x9286, 7, 0, true, EXIF),
    (SubSecTime, 0x9290, 2, 0, true, EXIF),
    (SubSecTimeOriginal, 0x9291, 2, 0, true, EXIF),
    (SubSecTimeDigitized, 0x9292, 2, 0, true, EXIF),
    (AmbientTemperature, 0x9400, 10, 1, true, EXIF),
    (Humidity, 0x9401, 5, 1, true, EXIF),
    (Pressure, 0x9402, 5, 1, true, EXIF),
    (WaterDepth, 0x9403, 10, 1, true, EXIF),
    (Acceleration, 0x9404, 5, 1, true, EXIF),
    (CameraElevationAngle, 0x9405, 10, 1, true, EXIF),
    (FlashpixVersion, 0xa000, 7, 4, true, EXIF),
    (ColorSpace, 0xa001, 3, 1, true, EXIF),
    (ExifImageWidth, 0xa002, 4, 1, true, EXIF),
    (ExifImageHeight, 0xa003, 4, 1, true, EXIF),
    (RelatedSoundFile, 0xa004, 2, 0, true, EXIF),
    (InteropOffset, 0xa005, 4, 1, true, EXIF),
    (FlashEnergy, 0xa20b, 5, 1, true, EXIF),
    (SpatialFrequencyResponse, 0xa20c, 3, 1, false, EXIF),
    (FocalPlaneXResolution, 0xa20e, 5, 1, true, EXIF),
    (FocalPlaneYResolution, 0xa20f, 5, 1, true, EXIF),
    (FocalPlaneResolutionUnit, 0xa210, 3, 1, true, EXIF),
    (SubjectLocation, 0xa214, 3, 1, true, EXIF),
    (ExposureIndex, 0xa215, 5, 1, true, EXIF),
    (SensingMethod, 0xa217, 3, 1, true, EXIF),
    (FileSource, 0xa300, 7, 0, true, EXIF),
    (SceneType, 0xa301, 7, 0, true, EXIF),
    (CFAPattern, 0xa302, 7, 0, true, EXIF),
    (CustomRendered, 0xa401, 3, 1, true, EXIF),
    (ExposureMode, 0xa402, 3, 1, true, EXIF),
    (WhiteBalance, 0xa403, 3, 1, true, EXIF),
    (DigitalZoomRatio, 0xa404, 5, 1, true, EXIF),
    (FocalLengthIn35mmFormat, 0xa405, 3, 1, true, EXIF),
    (SceneCaptureType, 0xa406, 3, 1, true, EXIF),
    (GainControl, 0xa407, 3, 1, true, EXIF),
    (Contrast, 0xa408, 3, 1, true, EXIF),
    (Saturation, 0xa409, 3, 1, true, EXIF),
    (Sharpness, 0xa40a, 3, 1, true, EXIF),
    (DeviceSettingDescription, 0xa40b, 7, 0, false, EXIF),
    (SubjectDistanceRange, 0xa40c, 3, 1, true, EXIF),
    (ImageUniqueID, 0xa420, 2, 0, true, EXIF),
    (OwnerName, 0xa430, 2, 0, true, EXIF),
    (SerialNumber, 0xa431, 2, 0, true, EXIF),
    (LensInfo, 0xa432, 5, 4, true, EXIF),
    (LensMake, 0xa433, 2, 0, true, EXIF),
    (LensModel, 0xa434, 2, 0, true, EXIF),
    (LensSerialNumber, 0xa435, 2, 0, true, EXIF),
    (CompositeImage, 0xa460, 3, 1, true, EXIF),
    (CompositeImageCount, 0xa461, 3, 2, true, EXIF),
    (CompositeImageExposureTimes, 0xa462, 7, 0, true, EXIF),
    (Gamma, 0xa500, 5, 1, true, EXIF),
];
pub fn make_unknown(hex: u16, g: G, v: &V) -> ExifTag {
    let g = g.lib();
    match (&v.val, v.fmt) {
        (Val::Bytes(x), 7) => ExifTag::UnknownUNDEF(x.clone(), hex, g),
        (Val::Bytes(x), _) => ExifTag::UnknownINT8U(x.clone(), hex, g),
        (Val::Str(x), _) => ExifTag::UnknownSTRING(x.clone(), hex, g),
        (Val::U16(x), _) => ExifTag::UnknownINT16U(x.clone(), hex, g),
        (Val::U32(x), _) => ExifTag::UnknownINT32U(x.clone(), hex, g),
        (Val::I8(x), _) => ExifTag::UnknownINT8S(x.clone(), hex, g),
        (Val::I16(x), _) => ExifTag::UnknownINT16S(x.clone(), hex, g),
        (Val::I32(x), _) => ExifTag::UnknownINT32S(x.clone(), hex, g),
        (Val::UR(_), _) => ExifTag::UnknownRATIONAL64U(Payload::from_val(&v.val).unwrap(), hex, g),
        (Val::IR(_), _) => ExifTag::UnknownRATIONAL64S(Payload::from_val(&v.val).unwrap(), hex, g),
        (Val::F32(_), _) => ExifTag::UnknownFLOAT(Payload::from_val(&v.val).unwrap(), hex, g),
        (Val::F64(_), _) => ExifTag::UnknownDOUBLE(Payload::from_val(&v.val).unwrap(), hex, g),
        (Val::Data(_), _) => unreachable!("data has no unknown form"),
    }
}
pub fn row(hex: u16, g: G) -> Option<&'static Row> { TABLE.iter().find(|r| r.hex == hex && r.group == g) }
pub const IMAGE_DATA_TAGS: [u16; 4] = [0x0111, 0x0117, 0x0201, 0x0202];
pub fn is_offset(hex: u16, g: G) -> Option<G> { match (hex, g) { (0x8769, G::GENERIC) => Some(G::EXIF), (0x8825, G::GENERIC) => Some(G::GPS), (0xa005, G::EXIF) => Some(G::INTEROP), _ => None } }
pub fn catalogued(hex: u16, g: G) -> bool { row(hex, g).is_some() || IMAGE_DATA_TAGS.contains(&hex) || ExifTag::from_u16(hex, &g.lib()).is_ok() }

/// The value stored bytes denote, by the definition of the formats.
pub fn from_bytes(fmt: u16, b: &[u8], big: bool) -> Option<Val> {
    let n = fmt_size(fmt);
    if n == 0 || b.len() % n != 0 { return None; }
    macro_rules! get { ($t:ty) => { b.chunks(std::mem::size_of::<$t>()).map(|c| { let a = c.try_into().unwrap(); if big { <$t>::from_be_bytes(a) } else { <$t>::from_le_bytes(a) } }).collect::<Vec<$t>>() } }
    Some(match fmt {
        1 | 7 => Val::Bytes(b.to_vec()),
        2 => Val::Str(match std::str::from_utf8(b) { Ok(s) => s.trim_end_matches('\0').to_string(), Err(_) => b.iter().filter(|x| **x != 0).map(|x| *x as char).collect() }),
        3 => Val::U16(get!(u16)), 4 => Val::U32(get!(u32)), 6 => Val::I8(get!(i8)), 8 => Val::I16(get!(i16)), 9 => Val::I32(get!(i32)), 11 => Val::F32(get!(u32)), 12 => Val::F64(get!(u64)),
        5 => Val::UR(get!(u32).chunks(2).map(|c| (c[0], c[1])).collect()),
        10 => Val::IR(get!(i32).chunks(2).map(|c| (c[0], c[1])).collect()),
        _ => return None,
    })
}
