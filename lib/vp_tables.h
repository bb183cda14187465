/* The AutoCAD colors 1..255 and the standard ILDA palette. */
static const short vp_acad[255][3] = {
  { 255, 0, 0 }, { 255, 255, 0 }, { 0, 255, 0 }, { 0, 255, 255 }, { 0, 0, 255 }, { 255, 0, 255 }, { 255, 255, 255 }, { 255, 255, 255 },
  { 255, 255, 255 }, { 255, 9, 0 }, { 255, 128, 128 }, { 166, 0, 0 }, { 166, 83, 83 }, { 128, 0, 0 }, { 128, 64, 64 }, { 77, 0, 0 },
  { 77, 38, 38 }, { 38, 0, 0 }, { 38, 19, 19 }, { 255, 64, 0 }, { 255, 160, 128 }, { 166, 42, 0 }, { 166, 104, 83 }, { 128, 32, 0 },
  { 128, 80, 64 }, { 77, 19, 0 }, { 77, 48, 38 }, { 38, 10, 0 }, { 38, 24, 19 }, { 256, 128, 0 }, { 256, 192, 0 }, { 166, 83, 0 },
  { 166, 125, 83 }, { 128, 64, 0 }, { 128, 96, 64 }, { 77, 38, 0 }, { 77, 58, 38 }, { 38, 19, 0 }, { 38, 29, 19 }, { 255, 192, 0 },
  { 255, 224, 128 }, { 166, 125, 0 }, { 166, 146, 83 }, { 128, 96, 0 }, { 128, 112, 64 }, { 77, 58, 0 }, { 77, 67, 38 }, { 38, 29, 0 },
  { 38, 34, 19 }, { 255, 255, 0 }, { 255, 255, 128 }, { 166, 166, 0 }, { 166, 166, 83 }, { 128, 128, 0 }, { 128, 128, 64 }, { 77, 77, 0 },
  { 77, 77, 38 }, { 38, 38, 0 }, { 38, 38, 19 }, { 192, 255, 0 }, { 224, 255, 128 }, { 125, 166, 0 }, { 146, 166, 83 }, { 96, 128, 0 },
  { 112, 128, 64 }, { 58, 77, 0 }, { 67, 77, 38 }, { 29, 38, 0 }, { 34, 38, 19 }, { 128, 255, 0 }, { 192, 255, 128 }, { 83, 166, 0 },
  { 125, 166, 83 }, { 64, 128, 0 }, { 96, 128, 64 }, { 38, 77, 0 }, { 58, 77, 38 }, { 19, 38, 0 }, { 29, 38, 19 }, { 64, 255, 0 },
  { 160, 255, 128 }, { 42, 160, 0 }, { 104, 160, 80 }, { 32, 128, 0 }, { 80, 128, 64 }, { 19, 77, 0 }, { 48, 77, 38 }, { 10, 38, 0 },
  { 24, 38, 19 }, { 0, 255, 0 }, { 128, 255, 128 }, { 0, 166, 0 }, { 83, 166, 83 }, { 0, 128, 0 }, { 64, 128, 64 }, { 0, 77, 0 },
  { 38, 77, 38 }, { 0, 38, 0 }, { 19, 38, 19 }, { 0, 255, 64 }, { 128, 255, 160 }, { 0, 166, 42 }, { 83, 166, 118 }, { 0, 128, 32 },
  { 64, 128, 80 }, { 0, 77, 19 }, { 38, 77, 48 }, { 0, 38, 10 }, { 19, 38, 24 }, { 0, 255, 128 }, { 128, 255, 192 }, { 0, 166, 83 },
  { 83, 166, 125 }, { 0, 128, 64 }, { 64, 128, 96 }, { 0, 77, 38 }, { 38, 77, 58 }, { 0, 38, 19 }, { 19, 38, 29 }, { 0, 255, 192 },
  { 128, 255, 224 }, { 0, 166, 125 }, { 83, 166, 146 }, { 0, 128, 96 }, { 64, 128, 112 }, { 0, 77, 58 }, { 38, 77, 67 }, { 0, 38, 29 },
  { 19, 38, 34 }, { 0, 255, 255 }, { 128, 255, 255 }, { 0, 166, 166 }, { 83, 166, 166 }, { 0, 128, 128 }, { 64, 128, 128 }, { 0, 77, 77 },
  { 38, 77, 77 }, { 0, 38, 38 }, { 19, 38, 38 }, { 0, 192, 255 }, { 128, 224, 255 }, { 0, 125, 166 }, { 83, 146, 166 }, { 0, 96, 128 },
  { 64, 112, 128 }, { 0, 58, 77 }, { 38, 67, 77 }, { 0, 29, 38 }, { 19, 34, 38 }, { 0, 128, 255 }, { 128, 192, 255 }, { 0, 83, 166 },
  { 83, 125, 166 }, { 0, 64, 128 }, { 64, 96, 128 }, { 0, 38, 77 }, { 38, 58, 77 }, { 0, 19, 38 }, { 19, 29, 38 }, { 0, 64, 255 },
  { 128, 160, 255 }, { 0, 42, 166 }, { 83, 104, 166 }, { 0, 32, 128 }, { 64, 80, 128 }, { 0, 19, 77 }, { 38, 48, 77 }, { 0, 10, 38 },
  { 19, 24, 38 }, { 0, 0, 255 }, { 128, 128, 255 }, { 0, 0, 166 }, { 83, 83, 166 }, { 0, 0, 128 }, { 64, 64, 128 }, { 0, 0, 77 },
  { 38, 38, 77 }, { 0, 0, 38 }, { 19, 19, 38 }, { 64, 0, 255 }, { 160, 128, 255 }, { 42, 0, 166 }, { 104, 83, 166 }, { 32, 0, 128 },
  { 80, 64, 128 }, { 19, 0, 77 }, { 48, 38, 77 }, { 10, 0, 38 }, { 24, 19, 38 }, { 128, 0, 255 }, { 192, 128, 255 }, { 83, 0, 166 },
  { 125, 83, 166 }, { 64, 0, 128 }, { 96, 64, 128 }, { 38, 0, 77 }, { 58, 38, 77 }, { 19, 0, 38 }, { 29, 19, 38 }, { 192, 0, 255 },
  { 224, 128, 255 }, { 125, 0, 166 }, { 146, 83, 166 }, { 96, 0, 128 }, { 112, 64, 128 }, { 58, 0, 77 }, { 67, 38, 77 }, { 29, 0, 38 },
  { 34, 19, 38 }, { 255, 0, 255 }, { 255, 128, 255 }, { 166, 0, 166 }, { 166, 83, 166 }, { 128, 0, 128 }, { 128, 64, 128 }, { 77, 0, 77 },
  { 77, 38, 77 }, { 38, 0, 38 }, { 38, 19, 38 }, { 255, 0, 192 }, { 255, 128, 224 }, { 166, 0, 125 }, { 166, 83, 146 }, { 128, 0, 96 },
  { 128, 64, 112 }, { 77, 0, 58 }, { 77, 38, 67 }, { 38, 0, 29 }, { 38, 19, 34 }, { 255, 0, 128 }, { 255, 128, 192 }, { 166, 0, 83 },
  { 166, 83, 125 }, { 128, 0, 64 }, { 128, 64, 96 }, { 77, 0, 38 }, { 77, 38, 58 }, { 38, 0, 19 }, { 38, 19, 29 }, { 255, 0, 64 },
  { 255, 128, 160 }, { 166, 0, 42 }, { 166, 83, 104 }, { 128, 0, 32 }, { 128, 64, 80 }, { 77, 0, 19 }, { 77, 38, 48 }, { 38, 0, 10 },
  { 38, 19, 24 }, { 84, 84, 84 }, { 119, 119, 119 }, { 153, 153, 153 }, { 187, 187, 187 }, { 222, 222, 222 }, { 255, 255, 255 },
};
static const short vp_ilda[256][3] = {
  { 0, 0, 0 }, { 255, 255, 255 }, { 255, 0, 0 }, { 255, 255, 0 }, { 0, 255, 0 }, { 0, 255, 255 }, { 0, 0, 255 }, { 255, 0, 255 },
  { 255, 128, 128 }, { 255, 140, 128 }, { 255, 151, 128 }, { 255, 163, 128 }, { 255, 174, 128 }, { 255, 186, 128 }, { 255, 197, 128 }, { 255, 209, 128 },
  { 255, 220, 128 }, { 255, 232, 128 }, { 255, 243, 128 }, { 255, 255, 128 }, { 243, 255, 128 }, { 232, 255, 128 }, { 220, 255, 128 }, { 209, 255, 128 },
  { 197, 255, 128 }, { 186, 255, 128 }, { 174, 255, 128 }, { 163, 255, 128 }, { 151, 255, 128 }, { 140, 255, 128 }, { 128, 255, 128 }, { 128, 255, 140 },
  { 128, 255, 151 }, { 128, 255, 163 }, { 128, 255, 174 }, { 128, 255, 186 }, { 128, 255, 197 }, { 128, 255, 209 }, { 128, 255, 220 }, { 128, 255, 232 },
  { 128, 255, 243 }, { 128, 255, 255 }, { 128, 243, 255 }, { 128, 232, 255 }, { 128, 220, 255 }, { 128, 209, 255 }, { 128, 197, 255 }, { 128, 186, 255 },
  { 128, 174, 255 }, { 128, 163, 255 }, { 128, 151, 255 }, { 128, 140, 255 }, { 128, 128, 255 }, { 140, 128, 255 }, { 151, 128, 255 }, { 163, 128, 255 },
  { 174, 128, 255 }, { 186, 128, 255 }, { 197, 128, 255 }, { 209, 128, 255 }, { 220, 128, 255 }, { 232, 128, 255 }, { 243, 128, 255 }, { 255, 128, 255 },
  { 255, 128, 243 }, { 255, 128, 232 }, { 255, 128, 220 }, { 255, 128, 209 }, { 255, 128, 197 }, { 255, 128, 186 }, { 255, 128, 174 }, { 255, 128, 163 },
  { 255, 128, 151 }, { 255, 128, 140 }, { 255, 0, 0 }, { 255, 23, 0 }, { 255, 46, 0 }, { 255, 70, 0 }, { 255, 93, 0 }, { 255, 116, 0 },
  { 255, 139, 0 }, { 255, 162, 0 }, { 255, 185, 0 }, { 255, 209, 0 }, { 255, 232, 0 }, { 255, 255, 0 }, { 232, 255, 0 }, { 209, 255, 0 },
  { 185, 255, 0 }, { 162, 255, 0 }, { 139, 255, 0 }, { 116, 255, 0 }, { 93, 255, 0 }, { 70, 255, 0 }, { 46, 255, 0 }, { 23, 255, 0 },
  { 0, 255, 0 }, { 0, 255, 23 }, { 0, 255, 46 }, { 0, 255, 70 }, { 0, 255, 93 }, { 0, 255, 116 }, { 0, 255, 139 }, { 0, 255, 162 },
  { 0, 255, 185 }, { 0, 255, 209 }, { 0, 255, 232 }, { 0, 255, 255 }, { 0, 232, 255 }, { 0, 209, 255 }, { 0, 185, 255 }, { 0, 162, 255 },
  { 0, 139, 255 }, { 0, 116, 255 }, { 0, 93, 255 }, { 0, 70, 255 }, { 0, 46, 255 }, { 0, 23, 255 }, { 0, 0, 255 }, { 23, 0, 255 },
  { 46, 0, 255 }, { 70, 0, 255 }, { 93, 0, 255 }, { 116, 0, 255 }, { 139, 0, 255 }, { 162, 0, 255 }, { 185, 0, 255 }, { 209, 0, 255 },
  { 232, 0, 255 }, { 255, 0, 255 }, { 255, 0, 232 }, { 255, 0, 209 }, { 255, 0, 185 }, { 255, 0, 162 }, { 255, 0, 139 }, { 255, 0, 116 },
  { 255, 0, 93 }, { 255, 0, 70 }, { 255, 0, 46 }, { 255, 0, 23 }, { 128, 0, 0 }, { 128, 12, 0 }, { 128, 23, 0 }, { 128, 35, 0 },
  { 128, 47, 0 }, { 128, 58, 0 }, { 128, 70, 0 }, { 128, 81, 0 }, { 128, 93, 0 }, { 128, 105, 0 }, { 128, 116, 0 }, { 128, 128, 0 },
  { 116, 128, 0 }, { 105, 128, 0 }, { 93, 128, 0 }, { 81, 128, 0 }, { 70, 128, 0 }, { 58, 128, 0 }, { 47, 128, 0 }, { 35, 128, 0 },
  { 23, 128, 0 }, { 12, 128, 0 }, { 0, 128, 0 }, { 0, 128, 12 }, { 0, 128, 23 }, { 0, 128, 35 }, { 0, 128, 47 }, { 0, 128, 58 },
  { 0, 128, 70 }, { 0, 128, 81 }, { 0, 128, 93 }, { 0, 128, 105 }, { 0, 128, 116 }, { 0, 128, 128 }, { 0, 116, 128 }, { 0, 105, 128 },
  { 0, 93, 128 }, { 0, 81, 128 }, { 0, 70, 128 }, { 0, 58, 128 }, { 0, 47, 128 }, { 0, 35, 128 }, { 0, 23, 128 }, { 0, 12, 128 },
  { 0, 0, 128 }, { 12, 0, 128 }, { 23, 0, 128 }, { 35, 0, 128 }, { 47, 0, 128 }, { 58, 0, 128 }, { 70, 0, 128 }, { 81, 0, 128 },
  { 93, 0, 128 }, { 105, 0, 128 }, { 116, 0, 128 }, { 128, 0, 128 }, { 128, 0, 116 }, { 128, 0, 105 }, { 128, 0, 93 }, { 128, 0, 81 },
  { 128, 0, 70 }, { 128, 0, 58 }, { 128, 0, 47 }, { 128, 0, 35 }, { 128, 0, 23 }, { 128, 0, 12 }, { 255, 192, 192 }, { 255, 64, 64 },
  { 192, 0, 0 }, { 64, 0, 0 }, { 255, 255, 192 }, { 255, 255, 64 }, { 192, 192, 0 }, { 64, 64, 0 }, { 192, 255, 192 }, { 64, 255, 64 },
  { 0, 192, 0 }, { 0, 64, 0 }, { 192, 255, 255 }, { 64, 255, 255 }, { 0, 192, 192 }, { 0, 64, 64 }, { 192, 192, 255 }, { 64, 64, 255 },
  { 0, 0, 192 }, { 0, 0, 64 }, { 255, 192, 255 }, { 255, 64, 255 }, { 192, 0, 192 }, { 64, 0, 64 }, { 255, 96, 96 }, { 255, 255, 255 },
  { 245, 245, 245 }, { 235, 235, 235 }, { 224, 224, 224 }, { 213, 213, 213 }, { 203, 203, 203 }, { 192, 192, 192 }, { 181, 181, 181 }, { 171, 171, 171 },
  { 160, 160, 160 }, { 149, 149, 149 }, { 139, 139, 139 }, { 128, 128, 128 }, { 117, 117, 117 }, { 107, 107, 107 }, { 96, 96, 96 }, { 85, 85, 85 },
  { 75, 75, 75 }, { 64, 64, 64 }, { 53, 53, 53 }, { 43, 43, 43 }, { 32, 32, 32 }, { 21, 21, 21 }, { 11, 11, 11 }, { 0, 0, 0 },
};
