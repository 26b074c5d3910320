//! The registered four-byte code of every named constant (ICC specification and registry, lcms2 2.13.1
//! headers; all entries present in the C library's bindings agree with it, except the digital cinema
//! projector, whose registered code 'dcpj' that header mistypes).
use lcms2::types::signatures as s;
use lcms2::types::Signature;

/// group, name, constant, registered code
pub const TABLE: [(&str, &str, Signature, &[u8; 4]); 235] = [
    ("general", "MAGIC_NUMBER", s::MAGIC_NUMBER, b"acsp"),
    ("general", "LCMS_SIGNATURE", s::LCMS_SIGNATURE, b"lcms"),
    ("general", "PERCEPTUAL_REFERENCE_MEDIUM_GAMUT", s::PERCEPTUAL_REFERENCE_MEDIUM_GAMUT, b"prmg"),
    ("general", "SCENE_COLORIMETRY_ESTIMATES", s::SCENE_COLORIMETRY_ESTIMATES, b"scoe"),
    ("general", "SCENE_APPEARANCE_ESTIMATES", s::SCENE_APPEARANCE_ESTIMATES, b"sape"),
    ("general", "FOCAL_PLANE_COLORIMETRY_ESTIMATES", s::FOCAL_PLANE_COLORIMETRY_ESTIMATES, b"fpce"),
    ("general", "REFLECTION_HARDCOPY_ORIGINAL_COLORIMETRY", s::REFLECTION_HARDCOPY_ORIGINAL_COLORIMETRY, b"rhoc"),
    ("general", "REFLECTION_PRINT_OUTPUT_COLORIMETRY", s::REFLECTION_PRINT_OUTPUT_COLORIMETRY, b"rpoc"),
    ("curve_segment", "FORMULA", s::curve_segment::FORMULA, b"parf"),
    ("curve_segment", "SAMPLED", s::curve_segment::SAMPLED, b"samf"),
    ("curve_segment", "SEGMENTED", s::curve_segment::SEGMENTED, b"curf"),
    ("general", "STATUS_A", s::STATUS_A, b"StaA"),
    ("general", "STATUS_E", s::STATUS_E, b"StaE"),
    ("general", "STATUS_I", s::STATUS_I, b"StaI"),
    ("general", "STATUS_T", s::STATUS_T, b"StaT"),
    ("general", "STATUS_M", s::STATUS_M, b"StaM"),
    ("general", "DN", s::DN, b"DN  "),
    ("general", "DNP", s::DNP, b"DN P"),
    ("general", "DNN", s::DNN, b"DNN "),
    ("general", "DNNP", s::DNNP, b"DNNP"),
    ("color_space", "XYZ", s::color_space::XYZ, b"XYZ "),
    ("color_space", "LAB", s::color_space::LAB, b"Lab "),
    ("color_space", "LUV", s::color_space::LUV, b"Luv "),
    ("color_space", "YCBCR", s::color_space::YCBCR, b"YCbr"),
    ("color_space", "YXY", s::color_space::YXY, b"Yxy "),
    ("color_space", "RGB", s::color_space::RGB, b"RGB "),
    ("color_space", "GRAY", s::color_space::GRAY, b"GRAY"),
    ("color_space", "HSV", s::color_space::HSV, b"HSV "),
    ("color_space", "HLS", s::color_space::HLS, b"HLS "),
    ("color_space", "CMYK", s::color_space::CMYK, b"CMYK"),
    ("color_space", "CMY", s::color_space::CMY, b"CMY "),
    ("color_space", "MCH1", s::color_space::MCH1, b"MCH1"),
    ("color_space", "MCH2", s::color_space::MCH2, b"MCH2"),
    ("color_space", "MCH3", s::color_space::MCH3, b"MCH3"),
    ("color_space", "MCH4", s::color_space::MCH4, b"MCH4"),
    ("color_space", "MCH5", s::color_space::MCH5, b"MCH5"),
    ("color_space", "MCH6", s::color_space::MCH6, b"MCH6"),
    ("color_space", "MCH7", s::color_space::MCH7, b"MCH7"),
    ("color_space", "MCH8", s::color_space::MCH8, b"MCH8"),
    ("color_space", "MCH9", s::color_space::MCH9, b"MCH9"),
    ("color_space", "MCHA", s::color_space::MCHA, b"MCHA"),
    ("color_space", "MCHB", s::color_space::MCHB, b"MCHB"),
    ("color_space", "MCHC", s::color_space::MCHC, b"MCHC"),
    ("color_space", "MCHD", s::color_space::MCHD, b"MCHD"),
    ("color_space", "MCHE", s::color_space::MCHE, b"MCHE"),
    ("color_space", "MCHF", s::color_space::MCHF, b"MCHF"),
    ("color_space", "NAMED", s::color_space::NAMED, b"nmcl"),
    ("color_space", "COLOR1", s::color_space::COLOR1, b"1CLR"),
    ("color_space", "COLOR2", s::color_space::COLOR2, b"2CLR"),
    ("color_space", "COLOR3", s::color_space::COLOR3, b"3CLR"),
    ("color_space", "COLOR4", s::color_space::COLOR4, b"4CLR"),
    ("color_space", "COLOR5", s::color_space::COLOR5, b"5CLR"),
    ("color_space", "COLOR6", s::color_space::COLOR6, b"6CLR"),
    ("color_space", "COLOR7", s::color_space::COLOR7, b"7CLR"),
    ("color_space", "COLOR8", s::color_space::COLOR8, b"8CLR"),
    ("color_space", "COLOR9", s::color_space::COLOR9, b"9CLR"),
    ("color_space", "COLOR10", s::color_space::COLOR10, b"ACLR"),
    ("color_space", "COLOR11", s::color_space::COLOR11, b"BCLR"),
    ("color_space", "COLOR12", s::color_space::COLOR12, b"CCLR"),
    ("color_space", "COLOR13", s::color_space::COLOR13, b"DCLR"),
    ("color_space", "COLOR14", s::color_space::COLOR14, b"ECLR"),
    ("color_space", "COLOR15", s::color_space::COLOR15, b"FCLR"),
    ("color_space", "LUVK", s::color_space::LUVK, b"LuvK"),
    ("platform", "MACINTOSH", s::platform::MACINTOSH, b"APPL"),
    ("platform", "MICROSOFT", s::platform::MICROSOFT, b"MSFT"),
    ("platform", "SOLARIS", s::platform::SOLARIS, b"SUNW"),
    ("platform", "SGI", s::platform::SGI, b"SGI "),
    ("platform", "TALIGENT", s::platform::TALIGENT, b"TGNT"),
    ("platform", "UNICES", s::platform::UNICES, b"*nix"),
    ("plugin_type", "MAGIC", s::plugin_type::MAGIC, b"acpp"),
    ("plugin_type", "TRANSFORM", s::plugin_type::TRANSFORM, b"xfmH"),
    ("plugin_type", "INTERPOLATION", s::plugin_type::INTERPOLATION, b"inpH"),
    ("plugin_type", "TAG_TYPE", s::plugin_type::TAG_TYPE, b"typH"),
    ("plugin_type", "TAG", s::plugin_type::TAG, b"tagH"),
    ("plugin_type", "FORMATTERS", s::plugin_type::FORMATTERS, b"frmH"),
    ("plugin_type", "RENDERING_INTENT", s::plugin_type::RENDERING_INTENT, b"intH"),
    ("plugin_type", "PARAMETRIC_CURVE", s::plugin_type::PARAMETRIC_CURVE, b"parH"),
    ("plugin_type", "MULTI_PROCESS_ELEMENT", s::plugin_type::MULTI_PROCESS_ELEMENT, b"mpeH"),
    ("plugin_type", "OPTIMIZATION", s::plugin_type::OPTIMIZATION, b"optH"),
    ("profile_class", "INPUT", s::profile_class::INPUT, b"scnr"),
    ("profile_class", "DISPLAY", s::profile_class::DISPLAY, b"mntr"),
    ("profile_class", "OUTPUT", s::profile_class::OUTPUT, b"prtr"),
    ("profile_class", "LINK", s::profile_class::LINK, b"link"),
    ("profile_class", "ABSTRACT", s::profile_class::ABSTRACT, b"abst"),
    ("profile_class", "COLOR_SPACE", s::profile_class::COLOR_SPACE, b"spac"),
    ("profile_class", "NAMED_COLOR", s::profile_class::NAMED_COLOR, b"nmcl"),
    ("stage", "CURVE_SET_ELEM_TYPE", s::stage::CURVE_SET_ELEM_TYPE, b"cvst"),
    ("stage", "MATRIX_ELEM_TYPE", s::stage::MATRIX_ELEM_TYPE, b"matf"),
    ("stage", "C_LUT_ELEM_TYPE", s::stage::C_LUT_ELEM_TYPE, b"clut"),
    ("stage", "B_ACS_ELEM_TYPE", s::stage::B_ACS_ELEM_TYPE, b"bACS"),
    ("stage", "E_ACS_ELEM_TYPE", s::stage::E_ACS_ELEM_TYPE, b"eACS"),
    ("stage", "XYZ_TO_LAB_ELEM_TYPE", s::stage::XYZ_TO_LAB_ELEM_TYPE, b"l2x "),
    ("stage", "LAB_TO_XYZ_ELEM_TYPE", s::stage::LAB_TO_XYZ_ELEM_TYPE, b"x2l "),
    ("stage", "NAMED_COLOR_ELEM_TYPE", s::stage::NAMED_COLOR_ELEM_TYPE, b"ncl "),
    ("stage", "LAB_V2_TO_V4", s::stage::LAB_V2_TO_V4, b"2 4 "),
    ("stage", "LAB_V4_TO_V2", s::stage::LAB_V4_TO_V2, b"4 2 "),
    ("stage", "IDENTITY_ELEM_TYPE", s::stage::IDENTITY_ELEM_TYPE, b"idn "),
    ("stage", "LAB_TO_FLOAT_PCS", s::stage::LAB_TO_FLOAT_PCS, b"d2l "),
    ("stage", "FLOAT_PCS_TO_LAB", s::stage::FLOAT_PCS_TO_LAB, b"l2d "),
    ("stage", "XYZ_TO_FLOAT_PCS", s::stage::XYZ_TO_FLOAT_PCS, b"d2x "),
    ("stage", "FLOAT_PCS_TO_XYZ", s::stage::FLOAT_PCS_TO_XYZ, b"x2d "),
    ("stage", "CLIP_NEGATIVES_ELEM_TYPE", s::stage::CLIP_NEGATIVES_ELEM_TYPE, b"clp "),
    ("tag", "A_TO_B0", s::tag::A_TO_B0, b"A2B0"),
    ("tag", "A_TO_B1", s::tag::A_TO_B1, b"A2B1"),
    ("tag", "A_TO_B2", s::tag::A_TO_B2, b"A2B2"),
    ("tag", "BLUE_COLORANT", s::tag::BLUE_COLORANT, b"bXYZ"),
    ("tag", "BLUE_MATRIX_COLUMN", s::tag::BLUE_MATRIX_COLUMN, b"bXYZ"),
    ("tag", "BLUE_TRC", s::tag::BLUE_TRC, b"bTRC"),
    ("tag", "B_TO_A0", s::tag::B_TO_A0, b"B2A0"),
    ("tag", "B_TO_A1", s::tag::B_TO_A1, b"B2A1"),
    ("tag", "B_TO_A2", s::tag::B_TO_A2, b"B2A2"),
    ("tag", "CALIBRATION_DATE_TIME", s::tag::CALIBRATION_DATE_TIME, b"calt"),
    ("tag", "CHAR_TARGET", s::tag::CHAR_TARGET, b"targ"),
    ("tag", "CHROMATIC_ADAPTATION", s::tag::CHROMATIC_ADAPTATION, b"chad"),
    ("tag", "CHROMATICITY", s::tag::CHROMATICITY, b"chrm"),
    ("tag", "COLORANT_ORDER", s::tag::COLORANT_ORDER, b"clro"),
    ("tag", "COLORANT_TABLE", s::tag::COLORANT_TABLE, b"clrt"),
    ("tag", "COLORANT_TABLE_OUT", s::tag::COLORANT_TABLE_OUT, b"clot"),
    ("tag", "COLORIMETRIC_INTENT_IMAGE_STATE", s::tag::COLORIMETRIC_INTENT_IMAGE_STATE, b"ciis"),
    ("tag", "COPYRIGHT", s::tag::COPYRIGHT, b"cprt"),
    ("tag", "CRD_INFO", s::tag::CRD_INFO, b"crdi"),
    ("tag", "DATA", s::tag::DATA, b"data"),
    ("tag", "DATE_TIME", s::tag::DATE_TIME, b"dtim"),
    ("tag", "DEVICE_MFG_DESC", s::tag::DEVICE_MFG_DESC, b"dmnd"),
    ("tag", "DEVICE_MODEL_DESC", s::tag::DEVICE_MODEL_DESC, b"dmdd"),
    ("tag", "DEVICE_SETTINGS", s::tag::DEVICE_SETTINGS, b"devs"),
    ("tag", "D_TO_B0", s::tag::D_TO_B0, b"D2B0"),
    ("tag", "D_TO_B1", s::tag::D_TO_B1, b"D2B1"),
    ("tag", "D_TO_B2", s::tag::D_TO_B2, b"D2B2"),
    ("tag", "D_TO_B3", s::tag::D_TO_B3, b"D2B3"),
    ("tag", "B_TO_D0", s::tag::B_TO_D0, b"B2D0"),
    ("tag", "B_TO_D1", s::tag::B_TO_D1, b"B2D1"),
    ("tag", "B_TO_D2", s::tag::B_TO_D2, b"B2D2"),
    ("tag", "B_TO_D3", s::tag::B_TO_D3, b"B2D3"),
    ("tag", "GAMUT", s::tag::GAMUT, b"gamt"),
    ("tag", "GRAY_TRC", s::tag::GRAY_TRC, b"kTRC"),
    ("tag", "GREEN_COLORANT", s::tag::GREEN_COLORANT, b"gXYZ"),
    ("tag", "GREEN_MATRIX_COLUMN", s::tag::GREEN_MATRIX_COLUMN, b"gXYZ"),
    ("tag", "GREEN_TRC", s::tag::GREEN_TRC, b"gTRC"),
    ("tag", "LUMINANCE", s::tag::LUMINANCE, b"lumi"),
    ("tag", "MEASUREMENT", s::tag::MEASUREMENT, b"meas"),
    ("tag", "MEDIA_BLACK_POINT", s::tag::MEDIA_BLACK_POINT, b"bkpt"),
    ("tag", "MEDIA_WHITE_POINT", s::tag::MEDIA_WHITE_POINT, b"wtpt"),
    ("tag", "NAMED_COLOR", s::tag::NAMED_COLOR, b"ncol"),
    ("tag", "NAMED_COLOR2", s::tag::NAMED_COLOR2, b"ncl2"),
    ("tag", "OUTPUT_RESPONSE", s::tag::OUTPUT_RESPONSE, b"resp"),
    ("tag", "PERCEPTUAL_RENDERING_INTENT_GAMUT", s::tag::PERCEPTUAL_RENDERING_INTENT_GAMUT, b"rig0"),
    ("tag", "PREVIEW0", s::tag::PREVIEW0, b"pre0"),
    ("tag", "PREVIEW1", s::tag::PREVIEW1, b"pre1"),
    ("tag", "PREVIEW2", s::tag::PREVIEW2, b"pre2"),
    ("tag", "PROFILE_DESCRIPTION", s::tag::PROFILE_DESCRIPTION, b"desc"),
    ("tag", "PROFILE_DESCRIPTION_ML", s::tag::PROFILE_DESCRIPTION_ML, b"dscm"),
    ("tag", "PROFILE_SEQUENCE_DESC", s::tag::PROFILE_SEQUENCE_DESC, b"pseq"),
    ("tag", "PROFILE_SEQUENCE_ID", s::tag::PROFILE_SEQUENCE_ID, b"psid"),
    ("tag", "PS2_CRD0", s::tag::PS2_CRD0, b"psd0"),
    ("tag", "PS2_CRD1", s::tag::PS2_CRD1, b"psd1"),
    ("tag", "PS2_CRD2", s::tag::PS2_CRD2, b"psd2"),
    ("tag", "PS2_CRD3", s::tag::PS2_CRD3, b"psd3"),
    ("tag", "PS2_CSA", s::tag::PS2_CSA, b"ps2s"),
    ("tag", "PS2_RENDERING_INTENT", s::tag::PS2_RENDERING_INTENT, b"ps2i"),
    ("tag", "RED_COLORANT", s::tag::RED_COLORANT, b"rXYZ"),
    ("tag", "RED_MATRIX_COLUMN", s::tag::RED_MATRIX_COLUMN, b"rXYZ"),
    ("tag", "RED_TRC", s::tag::RED_TRC, b"rTRC"),
    ("tag", "SATURATION_RENDERING_INTENT_GAMUT", s::tag::SATURATION_RENDERING_INTENT_GAMUT, b"rig2"),
    ("tag", "SCREENING_DESC", s::tag::SCREENING_DESC, b"scrd"),
    ("tag", "SCREENING", s::tag::SCREENING, b"scrn"),
    ("tag", "TECHNOLOGY", s::tag::TECHNOLOGY, b"tech"),
    ("tag", "UCR_BG", s::tag::UCR_BG, b"bfd "),
    ("tag", "VIEWING_COND_DESC", s::tag::VIEWING_COND_DESC, b"vued"),
    ("tag", "VIEWING_CONDITIONS", s::tag::VIEWING_CONDITIONS, b"view"),
    ("tag", "VCGT", s::tag::VCGT, b"vcgt"),
    ("tag", "META", s::tag::META, b"meta"),
    ("tag", "ARGYLL_ARTS", s::tag::ARGYLL_ARTS, b"arts"),
    ("tag_type", "CHROMATICITY", s::tag_type::CHROMATICITY, b"chrm"),
    ("tag_type", "COLORANT_ORDER", s::tag_type::COLORANT_ORDER, b"clro"),
    ("tag_type", "COLORANT_TABLE", s::tag_type::COLORANT_TABLE, b"clrt"),
    ("tag_type", "CRD_INFO", s::tag_type::CRD_INFO, b"crdi"),
    ("tag_type", "CURVE", s::tag_type::CURVE, b"curv"),
    ("tag_type", "DATA", s::tag_type::DATA, b"data"),
    ("tag_type", "DICT", s::tag_type::DICT, b"dict"),
    ("tag_type", "DATE_TIME", s::tag_type::DATE_TIME, b"dtim"),
    ("tag_type", "DEVICE_SETTINGS", s::tag_type::DEVICE_SETTINGS, b"devs"),
    ("tag_type", "LUT16", s::tag_type::LUT16, b"mft2"),
    ("tag_type", "LUT8", s::tag_type::LUT8, b"mft1"),
    ("tag_type", "LUTA_TO_B", s::tag_type::LUTA_TO_B, b"mAB "),
    ("tag_type", "LUTB_TO_A", s::tag_type::LUTB_TO_A, b"mBA "),
    ("tag_type", "MEASUREMENT", s::tag_type::MEASUREMENT, b"meas"),
    ("tag_type", "MULTI_LOCALIZED_UNICODE", s::tag_type::MULTI_LOCALIZED_UNICODE, b"mluc"),
    ("tag_type", "MULTI_PROCESS_ELEMENT", s::tag_type::MULTI_PROCESS_ELEMENT, b"mpet"),
    ("tag_type", "NAMED_COLOR", s::tag_type::NAMED_COLOR, b"ncol"),
    ("tag_type", "NAMED_COLOR2", s::tag_type::NAMED_COLOR2, b"ncl2"),
    ("tag_type", "PARAMETRIC_CURVE", s::tag_type::PARAMETRIC_CURVE, b"para"),
    ("tag_type", "PROFILE_SEQUENCE_DESC", s::tag_type::PROFILE_SEQUENCE_DESC, b"pseq"),
    ("tag_type", "PROFILE_SEQUENCE_ID", s::tag_type::PROFILE_SEQUENCE_ID, b"psid"),
    ("tag_type", "RESPONSE_CURVE_SET16", s::tag_type::RESPONSE_CURVE_SET16, b"rcs2"),
    ("tag_type", "S15_FIXED16_ARRAY", s::tag_type::S15_FIXED16_ARRAY, b"sf32"),
    ("tag_type", "SCREENING", s::tag_type::SCREENING, b"scrn"),
    ("tag_type", "SIGNATURE", s::tag_type::SIGNATURE, b"sig "),
    ("tag_type", "TEXT", s::tag_type::TEXT, b"text"),
    ("tag_type", "TEXT_DESCRIPTION", s::tag_type::TEXT_DESCRIPTION, b"desc"),
    ("tag_type", "U16_FIXED16_ARRAY", s::tag_type::U16_FIXED16_ARRAY, b"uf32"),
    ("tag_type", "UCR_BG", s::tag_type::UCR_BG, b"bfd "),
    ("tag_type", "UINT16_ARRAY", s::tag_type::UINT16_ARRAY, b"ui16"),
    ("tag_type", "UINT32_ARRAY", s::tag_type::UINT32_ARRAY, b"ui32"),
    ("tag_type", "UINT64_ARRAY", s::tag_type::UINT64_ARRAY, b"ui64"),
    ("tag_type", "UINT8_ARRAY", s::tag_type::UINT8_ARRAY, b"ui08"),
    ("tag_type", "VCGT", s::tag_type::VCGT, b"vcgt"),
    ("tag_type", "VIEWING_CONDITIONS", s::tag_type::VIEWING_CONDITIONS, b"view"),
    ("tag_type", "XYZ", s::tag_type::XYZ, b"XYZ "),
    ("technology", "DIGITAL_CAMERA", s::technology::DIGITAL_CAMERA, b"dcam"),
    ("technology", "FILM_SCANNER", s::technology::FILM_SCANNER, b"fscn"),
    ("technology", "REFLECTIVE_SCANNER", s::technology::REFLECTIVE_SCANNER, b"rscn"),
    ("technology", "INKJET_PRINTER", s::technology::INKJET_PRINTER, b"ijet"),
    ("technology", "THERMAL_WAX_PRINTER", s::technology::THERMAL_WAX_PRINTER, b"twax"),
    ("technology", "ELECTROPHOTOGRAPHIC_PRINTER", s::technology::ELECTROPHOTOGRAPHIC_PRINTER, b"epho"),
    ("technology", "ELECTROSTATIC_PRINTER", s::technology::ELECTROSTATIC_PRINTER, b"esta"),
    ("technology", "DYE_SUBLIMATION_PRINTER", s::technology::DYE_SUBLIMATION_PRINTER, b"dsub"),
    ("technology", "PHOTOGRAPHIC_PAPER_PRINTER", s::technology::PHOTOGRAPHIC_PAPER_PRINTER, b"rpho"),
    ("technology", "FILM_WRITER", s::technology::FILM_WRITER, b"fprn"),
    ("technology", "VIDEO_MONITOR", s::technology::VIDEO_MONITOR, b"vidm"),
    ("technology", "VIDEO_CAMERA", s::technology::VIDEO_CAMERA, b"vidc"),
    ("technology", "PROJECTION_TELEVISION", s::technology::PROJECTION_TELEVISION, b"pjtv"),
    ("technology", "CRT_DISPLAY", s::technology::CRT_DISPLAY, b"CRT "),
    ("technology", "PM_DISPLAY", s::technology::PM_DISPLAY, b"PMD "),
    ("technology", "AM_DISPLAY", s::technology::AM_DISPLAY, b"AMD "),
    ("technology", "PHOTO_CD", s::technology::PHOTO_CD, b"KPCD"),
    ("technology", "PHOTO_IMAGE_SETTER", s::technology::PHOTO_IMAGE_SETTER, b"imgs"),
    ("technology", "GRAVURE", s::technology::GRAVURE, b"grav"),
    ("technology", "OFFSET_LITHOGRAPHY", s::technology::OFFSET_LITHOGRAPHY, b"offs"),
    ("technology", "SILKSCREEN", s::technology::SILKSCREEN, b"silk"),
    ("technology", "FLEXOGRAPHY", s::technology::FLEXOGRAPHY, b"flex"),
    ("technology", "MOTION_PICTURE_FILM_SCANNER", s::technology::MOTION_PICTURE_FILM_SCANNER, b"mpfs"),
    ("technology", "MOTION_PICTURE_FILM_RECORDER", s::technology::MOTION_PICTURE_FILM_RECORDER, b"mpfr"),
    ("technology", "DIGITAL_MOTION_PICTURE_CAMERA", s::technology::DIGITAL_MOTION_PICTURE_CAMERA, b"dmpc"),
    ("technology", "DIGITAL_CINEMA_PROJECTOR", s::technology::DIGITAL_CINEMA_PROJECTOR, b"dcpj"),
];

/// Signature words: every registered code, then every word over an alphabet of the bytes that occur in
/// the magic number and of the unusual ones.
pub fn words4() -> u64 {
    TABLE.len() as u64 + 38_416
}
pub fn word4(i: u64) -> [u8; 4] {
    const A: [u8; 14] = [0, b' ', b'a', b'c', b's', b'p', b'A', b'C', b'S', b'P', 0xFF, 0x80, 1, 0x7F];
    match TABLE.get(i as usize) {
        Some(t) => *t.3,
        None => {
            let i = i as usize - TABLE.len();
            [A[i / 2744], A[i / 196 % 14], A[i / 14 % 14], A[i % 14]]
        }
    }
}
