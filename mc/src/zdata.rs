// Streams produced by the reference tools (zlib 1.3, zstd CLI).
pub const TEXT: &[u8] = &[108,105,110,101,32,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,52,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,57,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,54,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,53,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,54,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,50,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,55,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,55,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,54,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,51,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,49,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,49,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,52,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,56,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,56,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,52,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,49,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,49,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,51,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,54,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,55,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,55,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10];
pub const ZS_TEXT_CK: &[u8] = &[40,181,47,253,4,88,21,4,0,164,3,108,105,110,101,32,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,52,57,49,54,50,53,51,54,49,50,50,55,50,48,51,51,50,49,51,52,51,48,50,56,49,54,55,29,0,144,136,251,178,1,192,99,155,205,83,107,219,199,218,177,54,54,240,128,80,120,33,0,27,122,108,16,97,16,3,16,3,136,80,88,162,103,57,28,186,48,0,54,0,69,13,246,241,92,2,0,49,0,49,0,113,15,136,31,12,34,0,25,0,197,12,78,39,69,187,9,122];
pub const ZS_TEXT: &[u8] = &[40,181,47,253,0,104,237,2,0,18,68,13,17,160,237,144,21,187,37,84,53,111,86,107,82,242,192,207,41,24,163,87,207,188,127,80,38,171,129,255,101,214,247,142,221,55,139,237,151,112,240,146,99,169,162,65,39,209,130,153,94,106,34,199,90,28,168,48,150,239,255,6,144,173,214,12,16,18,225,127,109,247,143,3,134,240,239,18,203,94,59,238,172,108,57,95,45,170,99,198,96,167];
pub const ZS_ABC_CK: &[u8] = &[40,181,47,253,4,88,25,0,0,97,98,99,153,9,119,173];
pub const ZS_ABC: &[u8] = &[40,181,47,253,0,88,25,0,0,97,98,99];
pub const ZS_RUN_CK: &[u8] = &[40,181,47,253,4,88,77,0,0,16,120,120,1,0,39,42,192,2,191,213,15,200];
pub const ZS_RUN: &[u8] = &[40,181,47,253,0,88,77,0,0,16,120,120,1,0,39,42,192,2];
pub const ZS_EMPTY_CK: &[u8] = &[40,181,47,253,36,0,1,0,0,153,233,216,81];
pub const ZS_EMPTY: &[u8] = &[40,181,47,253,32,0,1,0,0];
pub const ZL_TEXT: &[u8] = &[120,218,149,146,193,13,128,32,12,0,255,78,209,17,108,171,162,235,24,65,73,8,124,116,127,227,0,103,194,251,194,81,174,148,92,163,140,210,146,220,87,148,35,238,207,41,185,166,54,148,15,40,129,137,192,134,170,133,136,205,68,28,207,168,161,45,16,65,96,124,13,150,113,71,27,70,83,36,40,115,12,237,56,154,173,253,132,109,63,19,244,191,147,219,112,79,222,1,239,45,116,253,142,23,85,108,253,137];
pub const ZL_TEXT1: &[u8] = &[120,1,125,145,75,14,128,48,8,5,247,158,130,35,8,248,189,142,145,106,147,166,221,232,253,141,123,199,245,4,222,99,40,185,134,244,210,146,92,103,200,30,219,125,72,174,169,117,229,5,74,96,32,176,18,208,137,136,141,68,28,103,212,104,198,102,34,8,140,99,208,140,59,197,24,74,83,36,184,204,81,180,99,53,91,176,26,18,222,246,211,128,98,248,78,118,195,62,149,15,197,191,241,171,191,200,3,85,108,253,137];
pub const ZL_TEXT0: &[u8] = &[120,1,1,4,3,251,252,108,105,110,101,32,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,52,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,57,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,54,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,53,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,54,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,50,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,55,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,55,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,54,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,51,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,49,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,49,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,52,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,56,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,56,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,52,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,49,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,49,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,51,51,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,49,48,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,54,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,55,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,108,105,110,101,32,50,55,32,111,102,32,116,104,101,32,100,101,98,117,103,32,105,110,102,111,10,85,108,253,137];
pub const ZL_TEXTF: &[u8] = &[120,1,203,201,204,75,85,48,80,200,79,83,40,201,72,85,72,73,77,42,77,87,200,204,75,203,231,202,1,73,24,226,146,48,193,37,97,137,211,40,51,92,50,70,166,184,100,140,113,234,49,52,194,105,154,57,46,25,156,18,70,184,173,193,25,50,198,198,56,77,195,25,104,134,56,101,112,26,102,140,51,160,141,113,58,205,200,130,116,25,220,166,225,113,1,233,254,196,29,54,184,195,19,119,28,224,142,55,115,146,82,7,0,85,108,253,137];
pub const ZL_TEXTW: &[u8] = &[24,211,149,207,193,13,128,32,12,64,209,187,83,116,4,40,8,186,142,17,148,132,192,69,247,55,222,253,38,156,95,250,219,214,210,146,24,233,89,174,51,201,158,182,251,144,210,114,159,234,11,150,192,19,172,152,10,36,58,147,56,156,177,138,181,72,130,160,188,198,224,105,14,107,22,107,40,24,115,30,5,79,211,101,92,184,246,115,193,248,159,138,226,184,198,143,6,146,136,35,95,242,0,85,108,253,137];
pub const ZL_ABC: &[u8] = &[120,218,75,76,74,6,0,2,77,1,39];
pub const ZL_ABC0: &[u8] = &[120,1,1,3,0,252,255,97,98,99,2,77,1,39];
pub const ZL_RUN: &[u8] = &[120,218,171,168,24,5,196,2,0,178,10,140,161];
pub const ZL_RUN0: &[u8] = &[120,1,1,44,1,211,254,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,178,10,140,161];
pub const ZL_EMPTY: &[u8] = &[120,218,3,0,0,0,0,1];
pub const ZL_EMPTY0: &[u8] = &[120,1,1,0,0,255,255,0,0,0,1];
