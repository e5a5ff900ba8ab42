//! Smallest z per 3-bit window of the Pallas generator such that z+y is a square and z-y is not for all eight
//! window points (85 windows; Z_SHORT_LAST: last window of the 22-window table). Found by exhaustive search.
pub static Z: [u64; 85] = [43655, 109180, 61855, 22792, 14323, 49340, 44106, 6761, 47940, 79582, 3365, 51667, 23557, 71715, 72411, 81323, 42306, 170594, 153399, 123967, 45210, 33828, 35916, 41584, 6170, 11193, 33522, 172258, 14241, 49210, 116579, 9614, 3395, 72959, 19163, 65943, 73370, 34409, 64584, 105594, 55203, 153173, 1684, 45351, 94119, 122571, 34870, 23350, 216891, 6656, 38186, 119457, 14327, 48142, 8340, 38666, 196327, 39318, 236217, 45314, 25824, 201273, 246768, 146377, 20458, 126526, 472656, 207233, 182140, 28692, 68225, 53602, 159006, 140116, 88050, 45619, 58608, 177089, 113359, 36185, 195431, 2923, 74622, 20536, 4210];
pub static Z_SHORT_LAST: u64 = 47381;
