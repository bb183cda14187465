"""Property texts and manifest notes; bin/gen.py writes properties.jsonl and MANIFEST.json from this."""
M = {}
def P(id, title, statement, over, text, why, files, mech, observe, note, claimed=True, reason=None, hook=None):
    M[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note,
                 claimed=claimed, reason=reason, hook=hook)

P("P01", "Bitmaps hold exactly what was put in them, at any size",
  "A bitmap of any width, height (0 to 65535) and number of planes owns storage for exactly width times height times planes bytes, starts all zero, and reports the size it was made with. A copy has the same size and pixels as the original and shares nothing with it, so changing or freeing one leaves the other alone. Asking for the color of a pixel inside the bitmap returns the stored red, green and blue (or the gray level three times), for every pixel of even the largest bitmap.",
  ["inputs"], "every width, height and plane count, every pixel position and content",
  "The tests only read three small images; sizes whose byte count passes 2^31 or 2^32 are never made.",
  ["src/autotrace.c", "src/bitmap.h", "src/autotrace.h"],
  [("allocation and copy of the pixel storage", "src/autotrace.c: at_bitmap_new, at_bitmap_init, at_bitmap_copy, at_bitmap_free"), ("pixel access", "src/autotrace.c: at_bitmap_get_color, at_bitmap_equal_color")],
  ["bitmap API"], "Complete: all dimensions symbolic (u16 x u16 x planes), heap and memcpy by contract stubs with a witness byte, integer lemmas for the nonlinear offsets.")
P("P02", "Option records start with the documented defaults and copy independently",
  "New fitting, input and output option records have the documented default values, whatever was done with earlier records. A copy has every value of the original, including a background color of its own; changing or freeing the copy never affects the original, nor the other way round.",
  ["inputs", "histories"], "every value of every option, with and without a background color, and every order of changing and freeing the copies",
  "The tests compare the defaults and one JSON round trip; they never copy a record with a background color nor free the parts.",
  ["src/autotrace.c", "src/autotrace.h"],
  [("option constructors and copies", "src/autotrace.c: at_fitting_opts_new/copy/free, at_input_opts_new/copy/free, at_output_opts_new/copy/free")],
  ["option API"], "Complete: every field symbolic, loop-free code.")
P("P03", "Colors parse, compare and convert exactly",
  "A string is accepted as a color exactly when it consists of six hexadecimal digits (either case), and then stands for the red, green and blue it spells; anything else is refused with an error and yields no color. Two colors are equal exactly when all three components are. The luminance of a color is 0.30 red + 0.59 green + 0.11 blue, rounded to the nearest integer.",
  ["inputs"], "every string and every pair of colors",
  "No test parses a color or compares two.",
  ["src/color.c", "src/color.h"],
  [("parser", "src/color.c: at_color_parse, hctoi"), ("comparison and luminance", "src/color.c: at_color_equal, at_color_luminance")],
  ["color API", "-background-color option"], "Complete for parsing (every string of every length), construction, comparison and copying. Luminance is a bounded stand-in: proved for each component over its whole range with the other two fixed at sampled values, and executed for all 16777216 colors.")
P("P04", "Errors reach the caller once and stay fatal",
  "Every warning and fatal error raised while the library works reaches the caller's message function exactly once, with its text, its severity and the caller's own data. Once a fatal error was raised the operation stays failed: no later warning takes the fatal state back, and a warning alone never makes it fatal.",
  ["histories"], "every sequence of warnings and fatal errors, with or without a message function",
  "No test makes the library fail.",
  ["src/exception.c", "src/exception.h"],
  [("exception record", "src/exception.c: at_exception_new, at_exception_fatal, at_exception_warning, at_exception_got_fatal")],
  ["message callback"], "Complete: one step from an arbitrary record state (inductive over every history).")
P("P05", "Tracing runs the requested steps in order and releases everything",
  "Tracing performs despeckling, color reduction, line-width measurement and thinning exactly when the options ask for them, in that order, before outlines (or centerlines) are found and fitted, each with the requested settings. It returns no result exactly when a step failed or the caller cancelled, starts no further step after a failure, and reports progress between zero and one to the caller with the caller's data. In every case each intermediate result is released exactly once and the caller's options are left unchanged.",
  ["inputs", "fault_sequences", "configurations"], "every combination of options, callbacks, and of failure or cancellation in each step",
  "The tests trace three images with two option sets; no step ever fails or is cancelled.",
  ["src/autotrace.c"],
  [("driver", "src/autotrace.c: at_splines_new_full, at_splines_new, at_splines_free")],
  ["at_splines_new_full and its callbacks"], "Complete: the driver is verified against contracts of the stages (each may fail, succeed or be cancelled), with ghost resource accounting. The stage contracts themselves are the subject of other properties.")
P("P06", "Reading and writing go through with the caller's settings",
  "Reading a file calls the chosen reader once, with the caller's file name, message function and options (or the defaults when none are given), and returns exactly the image it produced. Writing calls the chosen writer once, with the caller's stream, name, options (or the defaults), shapes and a drawing area of the size of the traced image, and numbers are written with a decimal point in every locale. Neither changes the caller's options.",
  ["inputs", "configurations"], "every reader and writer, every option set or none, every locale",
  "The tests always run in one locale and only through the command line.",
  ["src/autotrace.c"],
  [("dispatch", "src/autotrace.c: at_bitmap_read, at_splines_write")],
  ["at_bitmap_read, at_splines_write"], "Complete: reader and writer by contract stubs, every argument symbolic.")
P("P07", "PNM images are read as the format defines them",
  "A well-formed PBM, PGM or PPM file (ASCII or raw, comments and white space included) yields an image of the stated size whose every pixel has the stored value, scaled to 0..255 by the maximum value; one-bits are black and zero-bits white. Missing samples are reported and left black. A malformed header is reported as a fatal error, exactly once, and nothing outside the image is ever read or written.",
  ["inputs"], "every file content",
  "The tests read one small ASCII PBM file.",
  ["src/input-pnm.c"],
  [("token scanner", "src/input-pnm.c: pnmscanner_*"), ("loaders", "src/input-pnm.c: pnm_load_ascii, pnm_load_raw, pnm_load_rawpbm"), ("header", "src/input-pnm.c: input_pnm_reader")],
  ["at_bitmap_read with a .pbm/.pgm/.ppm/.pnm file"], "Header, scanner (any file), and the three loaders for images of any size: complete, function by function (loop contracts; characters, tokens and rows by contract, any one sample of the image followed). Samples scaled by a maximum other than 255 (places for any, values for fixed maxima), and whole files with concrete headers and every pixel byte free: bounded.")
P("P08", "BMP images are read as the format defines them",
  "A well-formed BMP file (OS/2 or Windows headers, 1 to 32 bits per pixel, color map or channel masks, uncompressed or RLE4/RLE8, bottom-up or top-down) yields an image of the stated size whose every pixel has the stored color, whatever stands in padding and gaps; the image is gray exactly when the color map is. Indices outside the color map and skipped RLE pixels do not disturb other pixels. A malformed file is reported as a fatal error, exactly once, and nothing outside the image is ever read or written.",
  ["inputs"], "every file content",
  "The tests read two BMP files of one flavour.",
  ["src/input-bmp.c"],
  [("header, masks, color map", "src/input-bmp.c: input_bmp_reader, ReadColorMap, ReadChannelMasks"), ("pixels", "src/input-bmp.c: ReadImage")],
  ["at_bitmap_read with a .bmp file"], "Color maps of any length (loop contract), channel masks, default masks and numbers: complete. Whole files: concrete headers with every pixel byte (and in small goals the color map) symbolic, and generated files run on the real code; labelled bounded.")
P("P09", "TGA images are read as the format defines them",
  "A well-formed TGA file (color-mapped, gray or true color, with or without alpha, plain or run-length coded, any of the four orientations) yields a three-plane image of the stated size whose every pixel has the stored color at its place; run-length packets of one image never affect another. Missing pixels are reported and left black. A malformed file is reported as a fatal error, exactly once, and nothing outside the image is ever read or written.",
  ["inputs", "histories"], "every file content and every sequence of files read",
  "No test reads a TGA file.",
  ["src/input-tga.c"],
  [("header and color map", "src/input-tga.c: input_tga_reader"), ("pixels", "src/input-tga.c: ReadImage, rle_fread, std_fread, flip_line, upside_down")],
  ["at_bitmap_read with a .tga file"], "Color maps of any length (loop contract), channel masks, default masks and numbers: complete. Whole files: concrete headers with every pixel byte (and in small goals the color map) symbolic, and generated files run on the real code; labelled bounded.")
P("P11", "Outlines follow the borders of the colors exactly",
  "Every outline found in an image is a closed chain of pixel sides inside the image, with pixels of its own color on one side all along and other colors (or the outside) on the other; no pixel side is followed twice from the same side, and exactly the inner borders are marked as holes (clockwise). Filling the outlines in the order given, holes with the background color, gives the image back whenever no background color is set or there is only one other color. The image is left unchanged, progress grows from zero to at most one, a cancelled search returns nothing, and nothing is leaked.",
  ["inputs"], "every image of every size, one or three planes, with and without a background color, every point of cancellation",
  "The tests only look at the final file of three images.",
  ["src/pxl-outline.c"],
  [("border following", "src/pxl-outline.c: find_outline_pixels, find_one_outline, next_point"), ("marking of followed sides", "src/pxl-outline.c: mark_edge, is_marked_edge, is_outline_edge, is_unmarked_outline_edge")],
  ["find_outline_pixels"], "The step of the border follower and the marks: complete, any image size, any place, pixels by contract (3x3 neighbourhood). The whole search: bounded stand-in, every small image, generated images up to 16x16 and the largest row and column, run on the real code.")
P("P12", "Centerlines are chains of neighboring pixels of one color",
  "Every centerline found in an image consists of at least two pixels inside the image, all of its own color and never of the background color, each a neighbor of the one before; in a closed centerline the last is a neighbor of the first. Lines one pixel thin, straight or winding, whose pixels touch only the one before and the one after, and rectangle outlines one pixel thin are found whole when they do not touch the first row or column, whatever the size of the image. The image is left unchanged, progress lies between zero and one, a cancelled search returns nothing, and nothing is leaked.",
  ["inputs"], "every image of every size, one or three planes, every background color",
  "No test traces centerlines of more than one image, and only the final file is compared.",
  ["src/pxl-outline.c"],
  [("line following", "src/pxl-outline.c: find_centerline_pixels, find_one_centerline, next_unmarked_pixel"), ("marking of followed directions", "src/pxl-outline.c: mark_dir, is_marked_dir, is_valid_dir, num_neighbors")],
  ["find_centerline_pixels"], "The step of the line follower, the marks and the neighbor count: complete, any image size, any place, pixels by contract (3x3 neighbourhood). The whole search: bounded stand-in, every small image, generated images up to 16x16, straight and winding lines and rectangles, the largest row and column, run on the real code.")
P("P13", "Thinning keeps every shape, its connections and its holes",
  "Thinning only turns pixels into background: every connected shape of a color remains exactly one connected shape of that color, and in a two-color image no hole appears or disappears. The pixels removed are those of Rosenfeld's parallel thinning (north, south, west, east passes over pixels whose neighbors form one connected group of two or more), so that a thinned image stays as it is when thinned again. The background is the given color (in a gray image, its luminance), or white when none is given, whatever was thinned before; images of other than one or three planes are refused with one error and left alone.",
  ["inputs", "histories"], "every image of one or three planes, every background color or none, after every earlier use",
  "The tests thin one image and only compare the final file.",
  ["src/thin-image.c"],
  [("thinning", "src/thin-image.c: thin_image, thin1, thin3"), ("removable neighborhoods", "src/thin-image.c: todelete")],
  ["thin_image"], "The table of removable neighborhoods: complete (all 512). The thinning itself: bounded stand-in, every small image and generated images up to 20x20 run on the real code against an independent reference and topological invariants.")
P("P14", "Despeckling merges small areas into the most similar neighbor",
  "Despeckling at level n merges connected areas (side neighbors of one color) of fewer than 2, 4, ... up to 2^(n-1) pixels, in this order, into the neighboring color most similar to theirs, provided it is similar enough for the tightness and noise removal settings; larger areas keep their color and no color appears that was not in the image. Level 0 changes nothing, the level is limited by the size of the image, and gray and color images of any size are treated alike. Images of other than one or three planes are refused with one error and left alone.",
  ["inputs", "configurations"], "every image of one or three planes, every level, tightness and noise removal",
  "No test despeckles.",
  ["src/despeckle.c"],
  [("areas", "src/despeckle.c: find_size, find_size_8, ignore, fill, fill_8"), ("choice of the new color", "src/despeckle.c: find_most_similar_neighbor, find_most_similar_neighbor_8, recolor, recolor_8"), ("passes", "src/despeckle.c: despeckle, despeckle_iteration, despeckle_iteration_8")],
  ["despeckle"], "The color differences: complete. The passes: bounded stand-in, every small image at small levels and 20000 generated images up to 24x24 run on the real code against an independent reference. Known finding: stack overflow on long winding areas.")
P("P15", "Color reduction gives at most the requested colors, each the nearest",
  "Reducing an image to n colors leaves at most n different colors in it (at most 256): every pixel takes the palette color nearest to it (red counted twice, green three times, to a precision of two levels), equal pixels stay equal, and an image that has few enough colors keeps them up to one level per component. Pixels of the background color stay exactly that, also in an image that is all background. Images of other than one or three planes are refused with one error and left alone; nothing is leaked.",
  ["inputs", "configurations"], "every image of one or three planes, every number of colors, every background color or none",
  "No test reduces colors.",
  ["src/median.c", "src/quantize.h"],
  [("palette", "src/median.c: select_colors_rgb, median_cut_rgb, update_box_rgb, compute_color_rgb"), ("mapping", "src/median.c: median_cut_pass2_rgb, fill_inverse_cmap_rgb, find_nearby_colors, find_best_colors")],
  ["quantize"], "The driver: complete, passes by contract. Splitting, choice of box and candidates: bounded (number of boxes and palette colors). The whole reduction: bounded stand-in, small and generated images run on the real code, every pixel compared with a search of the whole palette.")
P("P16", "Distance maps measure the darkness-weighted way out of a shape",
  "In a padded distance map every pixel of the target gray has distance zero and every other pixel at least the length of the shortest way to a target pixel or past the border, a step costing its length times the darkness of the pixel left; in a two-tone image it is exactly that length. Border pixels are at most one step away, weights are the darkness of the pixels from 0 to 1, color images count by luminance, and the image is left alone. Images without rows or columns give empty maps and nothing is leaked.",
  ["inputs"], "every image of one or three planes, every target gray",
  "No test measures line widths.",
  ["src/image-proc.c"],
  [("distance transform", "src/image-proc.c: new_distance_map, free_distance_map")],
  ["new_distance_map"], "Bounded only: one pixel with every gray, color and target proved by CBMC; every small two-tone image and generated images up to 20x20 run on the real code against an independent shortest-way computation.")
P("P18", "Lists of points, curves, splines and paths keep every element in order",
  "Appending to a list of pixels, points, curves, outlines, splines or paths makes it one longer, keeps every element that was there and puts the new one last, whatever the length. Joining two spline lists keeps all elements of both in order; joining two halves of a centerline keeps all pixels, the common start once. New lists are empty, enlarging never writes outside the block, and freeing frees everything.",
  ["inputs", "histories"], "every list length, every element, every sequence of appends",
  "Tests see lists only through the final file of a few images.",
  ["src/spline.c", "src/curve.c", "src/pxl-outline.c"],
  [("spline lists", "src/spline.c: append_spline, concat_spline_lists, append_spline_list, new_spline_list_with_spline"), ("curve lists", "src/curve.c: append_point, append_pixel, append_curve, append_curve_list, copy_most_of_curve"), ("outlines", "src/pxl-outline.c: append_pixel_outline, append_outline_pixel, concat_pixel_outline")],
  ["the list functions"], "Appending: complete (symbolic length up to 100000), heap by contract. Joining: bounded stand-in, every pair of lengths up to 12.")
P("P19", "Traced paths are connected, one for each outline",
  "Fitting turns every outline into exactly one path, in the same order, with the color, direction and kind (open or closed) of the outline; every spline starts exactly where the one before ends, a closed path ends exactly where it starts, and an open one leads from the first to the last pixel of its line. All coordinates are finite and splines join within the bounds of the outline. The result carries the size, settings and its own copy of the background color, fitting always ends, and it leaves the settings alone and leaks nothing, whatever they are and wherever it is cancelled.",
  ["inputs", "configurations"], "every image, outlines and centerlines, every setting of thresholds, surrounds and iterations, every point of cancellation",
  "The tests compare the final files of a few images at default settings.",
  ["src/fit.c", "src/curve.c", "src/spline.c"],
  [("paths", "src/fit.c: fitted_splines, split_at_corners, fit_curve_list"), ("curves", "src/fit.c: fit_curve, fit_with_line, fit_with_least_squares, fit_one_spline")],
  ["fitted_splines"], "Lines, the choice of fit and the subdivision: complete, callees by contract. Lists, splitting, knees, smoothing: bounded lengths. The whole fit: bounded stand-in, small and generated images run on the real code.")
P("P20", "The fit follows the documented rules for corners and accuracy",
  "Corners are the pixels where the outline (the surrounding pixels on either side, as many as set) bends sharper than the always-threshold, and those bending sharper than the corner threshold with no sharper one within the surround (equally sharp ones count too); corners are never moved. Between corners, points at inner pixel corners (knees) are dropped, each point of a centerline with preserved width gets the largest measured distance around it (in the first row, at and below it) times the weight factor as its width, and all are smoothed, and the splines are the least squares fits along the tangents at their ends, split at the worst point until no point is farther off than the error threshold. A spline becomes a line exactly when it is straight enough for the line threshold, and in the company of curves only when straight enough for the reversion threshold.",
  ["inputs", "configurations"], "every outline and centerline of every image, every setting of thresholds, surrounds and iterations",
  "The tests compare the final files of a few images at default settings.",
  ["src/fit.c", "src/vector.c", "src/spline.c"],
  [("corners", "src/fit.c: find_corners, find_vectors, remove_adjacent_corners"), ("smoothing", "src/fit.c: remove_knee_points, filter"), ("least squares", "src/fit.c: find_tangent, find_half_tangent, set_initial_parameter_values, fit_one_spline, find_error"), ("lines", "src/fit.c: spline_linear_enough, change_bad_lines")],
  ["fitted_splines"], "When and where to subdivide: complete, callees by contract. The largest error, lines among curves, neighboring corners: bounded lengths. The whole fit: bounded stand-in, small and generated images run on the real code against an independent reference.")
P("P21", "SVG files draw exactly the traced paths",
  "The SVG file of a picture has the width and height of its bounding box and, for each run of consecutive paths of equal color, one path element of that color: filled and closed at its end, or stroked and left open for centerlines and open paths. In it each path is one move to its start and then one line or curve for each spline, in order, with its end point and control points, heights counted from the top. Every path and spline is drawn exactly once, a picture without paths gives a file without path elements, and the picture is left alone.",
  ["inputs"], "every picture: any number of paths and splines, any finite coordinates, colors and kinds (paths of one picture all open or all closed unless traced by centerline)",
  "The tests compare the files of a few images.",
  ["src/output-svg.c", "src/color.c"],
  [("path elements", "src/output-svg.c: out_splines, output_svg_writer")],
  ["output_svg_writer"], "out_splines: complete for any number of paths and splines (loop contracts, output calls by contract). The text itself: bounded stand-in, generated pictures written by the real code and compared with the text called for.")
P("P22", "EPS, EPD and flattened PostScript files draw exactly the traced paths",
  "The file names the bounding box and draws, for each path in order, one move to its start and one line or curve for each spline with its end point and control points, whole numbers without and others with three decimals. The color, CMYK in EPS and flattened PostScript and RGB in EPD, is set before the first path and wherever it differs from the path before; every path is painted in its color, filled or, for centerlines and open paths, stroked, before the color changes or the file ends. In EPS paths of a color form one group, a flattened file says whether it holds curves and closes only closed paths, and the picture is left alone.",
  ["inputs"], "every picture: any number of paths and splines, any finite coordinates, colors and kinds (paths of one picture all open or all closed unless traced by centerline)",
  "The tests compare the files of a few images.",
  ["src/output-eps.c", "src/output-epd.c", "src/output-p2e.c"],
  [("EPS", "src/output-eps.c: out_splines, output_eps_header"), ("EPD", "src/output-epd.c: out_splines, output_epd_header"), ("flattened PostScript", "src/output-p2e.c: out_splines, output_p2e_header")],
  ["output_eps_writer", "output_epd_writer", "output_p2e_writer"], "The three out_splines: complete for any number of paths and splines (loop contracts, output calls by contract). The text itself, headers and CMYK colors: bounded stand-in, generated pictures written by the real code and compared with the text called for.")
P("P23", "PDF files are consistent and draw exactly the traced paths",
  "In a PDF file the content stream is exactly as long as declared, every object starts where the cross-reference table says, the table is where the end of the file says, and the page has the bounding box of the picture. The stream draws, for each path in order, one move to its start and one line or curve for each spline with its end point and control points. The color is set before the first path and wherever it changes, and every path is painted in its color, filled or, for centerlines and open paths, stroked, before the color changes or the stream ends; the picture is left alone.",
  ["inputs"], "every picture: any number of paths and splines, coordinates up to a million, colors and kinds (paths of one picture all open or all closed unless traced by centerline)",
  "The tests compare the files of a few images; a wrong length or offset is found by a reader only.",
  ["src/output-pdf.c"],
  [("stream and its length", "src/output-pdf.c: out_splines"), ("header and table", "src/output-pdf.c: output_pdf_header, output_pdf_tailor")],
  ["output_pdf_writer"], "Drawing: complete for any number of paths and splines (loop contracts, output calls by contract). Lengths, offsets and the text itself: bounded stand-in, generated pictures written by the real code and read back.")
P("P24", "Sketch, POV-Ray and Elastic Reality files hold exactly the traced paths",
  "A Sketch file holds for each path in order its color and kind (filled and closed, or stroked) and one object with its start and one line or curve per spline. A POV-Ray file holds one prism for each run of consecutive paths of equal color, declaring exactly as many points as follow, four per spline (lines with their ends doubled). An Elastic Reality file holds for each path one shape, open or closed, declaring exactly as many points as follow, each with the control points before and after it relative to the picture size, and for centerlines with preserved width the same for the line widths; the picture is left alone.",
  ["inputs"], "every picture: any number of paths and splines, any finite coordinates, colors and kinds",
  "No test writes these formats with more than one kind of path.",
  ["src/output-sk.c", "src/output-pov.c", "src/output-er.c"],
  [("Sketch", "src/output-sk.c: out_splines"), ("POV-Ray", "src/output-pov.c: out_splines"), ("Elastic Reality", "src/output-er.c: out_splines")],
  ["output_sk_writer", "output_pov_writer", "output_er_writer"], "Sketch: complete for any number of paths and splines (loop contracts, output calls by contract). POV-Ray and Elastic Reality and the text of all three: bounded stand-in, generated pictures written by the real code and compared with the text called for.")
P("P25", "EMF files are consistent and draw exactly the traced paths",
  "The header of a written EMF file holds the true length of the file, number of records and number of objects; every record is as long as it says and the last one ends the file. The file holds for each path in order its beginning, a move to its start, its lines and curves in order in whole scaled coordinates with the y axis turned over, its end and a fill (or stroke for centerlines), with the pen or brush of the color of the path selected; each color has one object, created before it is used and deleted once. An empty picture gives a valid empty file, and the picture is left alone.",
  ["inputs"], "every picture: any number of paths and splines, coordinates from 0 to 65535, any colors and kinds",
  "Tests only convert a few pictures and never read an EMF file back.",
  ["src/output-emf.c"],
  [("record writers", "src/output-emf.c: WriteMoveTo .. WriteEndOfMetafile"), ("lengths and counts", "src/output-emf.c: GetEmfStats"), ("file", "src/output-emf.c: OutputEmf")],
  ["output_emf_writer"], "Record writers, with any number of lines or curves: complete (loop contracts). Counting and order of the records of a whole file against the contracts of the record writers: bounded to two paths of two splines (three of three in the thorough tier), together with generated pictures written by the real code and read back.")
P("P26", "CGM and DR2D files are consistent and hold exactly the traced paths",
  "Every element of a CGM file and every chunk of a DR2D file is as long as it says, and the last one ends the file. The file holds for each path in order its color (that of the background for a hole, when a background is set) and whether it is filled or a line, and then each of its lines and curves in order with all points and the y axis turned over: in whole units for CGM, in steps of 1/1024 of a scaled unit for DR2D, where the number of points, the bounding box of the ends and the color numbers are the true ones. Names of any length are written in full, the picture is left alone and all memory is freed.",
  ["inputs"], "every picture: any number of paths and splines, any colors and kinds; for CGM coordinates within the picture",
  "Tests only convert a few pictures and never read these files back.",
  ["src/output-cgm.c", "src/output-dr2d.c"],
  [("CGM elements", "src/output-cgm.c: output_cgm_writer, output_beginmetafilename"), ("DR2D chunks", "src/output-dr2d.c: GeneratexPLY, CountSplines, BuildBBOX, BuildCMAP"), ("DR2D numbers", "src/output-dr2d.c: flt2ieee")],
  ["output_cgm_writer", "output_dr2d_writer"], "CGM elements of any picture: complete (loop contracts, words written by contract). DR2D numbers, points, counts, boxes and the data of a path of any length: complete. CGM names: up to 34 characters (250 to 260 in the thorough tier); whole DR2D files: bounded stand-in, generated pictures written by the real code and compared byte by byte.")
P("P27", "HPGL, FIG, MIF and UGS files hold exactly the traced paths",
  "An HPGL, FIG, MIF or UGS file holds every path of the picture once and in order, from its first point through the end of each line and points along each curve up to the end of the curve, with no other text. Each path has its color: the nearest of the eight pens in HPGL, selected when the color changes; in FIG and MIF a color that is defined once and is exactly that of the path (MIF: of the background for a hole when a background is set; FIG: white for a hole); in FIG a path over an earlier one has a smaller depth unless depth 0 is reached, and in UGS the bearings, ascend and descend enclose every point. This depends on the picture alone and not on files written before, the picture is left alone and all memory is freed.",
  ["inputs", "histories"], "every picture: any number of paths and splines, any colors and kinds (HPGL: coordinates that are not negative; FIG: at most 500 colors for the text), and any files written before",
  "Tests only convert a few pictures with few colors, once per process, and never read these files back.",
  ["src/output-plt.c", "src/output-fig.c", "src/output-mif.c", "src/output-ugs.c"],
  [("HPGL", "src/output-plt.c: OutputPlt, WriteBezier, GetIndexFromRGBValue"), ("FIG", "src/output-fig.c: out_fig_splines, get_fig_colour, fig_new_depth"), ("MIF", "src/output-mif.c: output_mif_writer"), ("UGS", "src/output-ugs.c: output_splines, cubic_to_quadratic")],
  ["output_plt_writer", "output_fig_writer", "output_mif_writer", "output_ugs_writer"], "HPGL of any picture: complete (loop contracts; pen choice and curves by contract, the pen of every color in the thorough tier). FIG depths, boxes and the initial colors: complete. UGS of any picture without bearing: complete (thorough tier). Everything else, MIF included: bounded stand-in, generated pictures written by the real code one after the other and read back.")
P("P28", "DXF and ILDA files hold exactly the traced paths",
  "A DXF file has the extent of the picture, a layer for each color used (the nearest of the color table) and no other, and for each path in order a polyline on its layer through its start and end points and about one point per unit along curves, all to 1/10000 of a unit; a path goes on in the polyline before it only if it starts where that ends and has the same color. An ILDA file of up to 65535 points has a table of true colors and one frame with the same number of points, six bytes each, only the last one marked: the paths in order, scaled and centered, in steps of at most about 800 along lines and curves, blanked moves between them and from and to the center, the nearest palette color, and points possibly repeated at corners. Neither depends on files written before, the picture is left alone and all memory is freed.",
  ["inputs", "histories"], "every picture: any number of paths and splines, any colors and kinds, and any files written before",
  "Tests only convert a few pictures, once per process, and never read these files back.",
  ["src/output-dxf.c", "src/output-ild.c"],
  [("DXF", "src/output-dxf.c: out_splines, output_layer, bspline_to_lines, GetIndexByRGBValue"), ("ILDA", "src/output-ild.c: OutputILDA, drawLine, drawCubicBezier, blankingPath, writeILDA")],
  ["output_dxf12_writer", "output_ild_writer"], "DXF point lists, ILDA headers for any number of points: complete. ILDA points: frames of one or two points. Whole files: bounded stand-in, generated pictures written by the real code one after the other and read back.")
# mostly bounded stand-ins: not claimed as proved
LEVEL = {k: "other" for k in ("P08", "P09", "P14", "P15", "P16", "P28")}
