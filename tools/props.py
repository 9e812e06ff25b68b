NA_REASON = {}
NOTES = {}

P("P01", "A map holds exactly the source data, and blanks everywhere else",
  "A created map has samples x lines elements. Each element holds the source datum read at that map point, converted to "
  "the map data type, if the source had data there within the allowed minimum and maximum, and otherwise the blank value "
  "(not-a-number for floating point maps, zero or the configured blank value for integer maps; a blank value that does "
  "not fit the map data type is rejected). The minimum and maximum reported for the map are those of the data actually "
  "placed in it, and are unknown when nothing was placed.",
  ["inputs", "configurations"], "every map size, data type, blank value, data range, source image content and plotting order",
  "Tests build a few fixed maps of one size from constant sources; the blank/plotted distinction and range clipping hold for "
  "every source answer, map type and plotting sequence only by argument.",
  ["lib/marc/MapFactory_t.cpp", "lib/marc/MapFactory.h", "lib/marc/plot_info.h", "lib/marc/Map_traits.h"],
  [("map creation and plotting", "lib/marc/MapFactory_t.cpp make_map(), plot(), get_extrema()"),
   ("map statistics", "lib/marc/plot_info.h")])

P("P02", "Data extrema are exact",
  "A set of extrema reports the smallest and largest of the values it was given, one at a time or by merging other "
  "extrema, or nothing when it was given none. Limits outside the range of the map data type are clipped to that range, "
  "not-a-number limits and inverted limits are rejected, and a value is in range exactly when it lies between the two limits.",
  ["inputs", "histories"], "every value, every data type, every sequence of updates and merges",
  "Tests sample a few literals per type; clipping, merging into empty extrema and NaN handling depend on every pair of values.",
  ["lib/marc/extrema.h", "lib/marc/Map_traits.h"],
  [("extrema", "lib/marc/extrema.h"), ("clipping to the data type", "lib/marc/Map_traits.h")])

P("P03", "Out-of-domain input is rejected, valid input is kept",
  "Latitudes outside [-90, 90], longitudes and position angles outside [-360, 360], radii, ranges, scales, focal lengths "
  "and emission angle limits outside their domain, and values that are not numbers where a number is required, are "
  "rejected with an error. Every value inside its domain is accepted and stored as given, angles converted from degrees "
  "to radians.",
  ["inputs"], "every double, including infinities and not-a-number",
  "Tests sample a few valid and invalid literals; the boundary and not-a-number behaviour is a statement about every double.",
  ["lib/marc/Validate.h", "lib/marc/ViewingGeometry.cpp", "lib/marc/OblateSpheroid.cpp"],
  [("angle validation", "lib/marc/Validate.h"), ("viewing geometry setters", "lib/marc/ViewingGeometry.cpp"),
   ("radii", "lib/marc/OblateSpheroid.cpp")])

P("P04", "Simple Cylindrical maps show the right place in every element",
  "A Simple Cylindrical map of any size plots each of its samples x lines elements exactly once. Latitude increases by "
  "equal steps from the low to the high latitude (steps in planetographic latitude if those were asked for, handed on as "
  "planetocentric) and longitude by equal steps over the longitude range, to the left for prograde and to the right for "
  "retrograde bodies, each taken at the pixel centre; equal boundary longitudes mean the full circle, and a low longitude "
  "above the high one is taken one turn lower.",
  ["inputs", "configurations"], "every map size, boundary latitudes and longitudes, rotation sense and kind of latitude",
  "No test creates a Simple Cylindrical map; coordinates of every element for every boundary cannot be enumerated.",
  ["lib/marc/SimpleCylindrical.cpp", "lib/marc/SimpleCylindrical.h"],
  [("plotting", "lib/marc/SimpleCylindrical.cpp plot_map()"), ("longitudes", "lib/marc/SimpleCylindrical.h get_longitude()")])

P("P05", "Mercator maps show the right place in every element",
  "A Mercator map of any size plots each of its samples x lines elements exactly once. The latitude of a line is the "
  "planetocentric equivalent of the planetographic latitude whose ellipsoidal Mercator ordinate is that of the line's "
  "centre, with equal scale along both axes and the equator in the middle. Longitudes cover 360 degrees in equal steps at "
  "pixel centres, increasing to the left for prograde and to the right for retrograde bodies.",
  ["inputs", "configurations"], "every map size, pair of radii and rotation sense",
  "The test checks a handful of latitudes for one body; the mapping of every element depends on size, radii and rotation sense.",
  ["lib/marc/Mercator.cpp"], [("plotting", "lib/marc/Mercator.cpp plot_map(), get_longitude()")])

P("P06", "Polar Stereographic maps show the right place in every element",
  "A Polar Stereographic map of any size plots each of its samples x lines elements exactly once, the pole being at the "
  "centre of the map. The latitude of an element is the one whose ellipsoidal polar stereographic radius is the element's "
  "distance from the centre, the maximum latitude lying at the edge of the smaller map dimension, and its longitude is "
  "the position angle of the element, counter-clockwise for prograde north and retrograde south maps and clockwise otherwise. "
  "A maximum latitude of 90 degrees or beyond is rejected.",
  ["inputs", "configurations"], "every map size, pair of radii, rotation sense, pole and maximum latitude",
  "The test checks a few points of one configuration; the mapping of every element depends on size, radii, pole and rotation sense.",
  ["lib/marc/PolarStereographic.cpp"], [("plotting", "lib/marc/PolarStereographic.cpp plot_map(), stereo_rho()")])

P("P10", "Compositing combines exactly the images that have data",
  "At any point of a mosaic, the first-read strategy yields the datum of the first image that has data there, the "
  "unweighted strategy the mean and the weighted strategy the weighted mean of all images that have data there. A lone datum "
  "is passed on unchanged, and the mosaic has data at a point exactly when at least one of its images does.",
  ["inputs", "configurations"], "every number of images, every data and weight, every subset of images that have data",
  "Tests composite two or three constant images; which images contribute and with what weight varies over all lists.",
  ["lib/marc/first_read.cpp", "lib/marc/unweighted_average.cpp", "lib/marc/weighted_average.cpp", "lib/marc/MosaicImage.cpp"],
  [("strategies", "lib/marc/first_read.cpp, unweighted_average.cpp, weighted_average.cpp"), ("mosaic", "lib/marc/MosaicImage.cpp")])

P("P09", "Photos are read at the right pixel, never in margins or sky",
  "A photo yields data for a latitude and longitude exactly when the viewing geometry locates the point inside the photo and "
  "outside of its margins, on the body if sky is removed, at a pixel that is a number, and interpolation and correction "
  "succeed. Without interpolation the datum is that pixel; interpolated data use only pixels outside of the margins and lie between "
  "the smallest and the largest of the four. The datum given by the caller is kept if there is none. The weight of a datum is the "
  "distance to the closest edge or, along its line and sample, sky pixel. Margins that leave nothing of a photo are rejected.",
  ["inputs", "configurations"], "every photo size, margin, content, sky mask and location",
  "Tests read a few points of small photos; which pixel is read, and whether it may be, depends on size, margins, mask and location.",
  ["lib/marc/PhotoImage.cpp", "lib/marc/PhotoImageParameters.cpp", "lib/marc/BilinearInterpolation.cpp"],
  [("reading and weights", "lib/marc/PhotoImage.cpp read_data(), data_weight()"), ("margins", "lib/marc/PhotoImageParameters.cpp"),
   ("interpolation", "lib/marc/BilinearInterpolation.cpp, NullInterpolation.cpp")])

P("P07", "Orthographic maps show the right place in every element",
  "An Orthographic map shows, in each element whose line of sight meets the body, and in no other, the point of the "
  "spheroid nearer to the observer on it, each element plotted once: seen from infinity above the sub-observation point, north at the position "
  "angle (the prime meridian up when seen from above a pole), longitude in the body's sense of rotation, at the given "
  "kilometers per pixel (nine tenths of the smaller map dimension by default). The centre of the body is at the given sample and line, or "
  "the given latitude and longitude at the centre of the map; a point of the far side is rejected as such.",
  ["inputs", "configurations"], "every map size, observer, position angle, scale, centre, body and element",
  "Tests look at one element of one map; where the rest are depends on observer, position angle, flattening and centre together.",
  ["lib/marc/Orthographic.cpp"],
  [("plotting", "lib/marc/Orthographic.cpp plot_map()"), ("centre and scale", "lib/marc/Orthographic.cpp Orthographic(), map_parameters()")])

P("P11", "Computed planes show the geometry of the body, scaled",
  "A latitude plane holds the latitude in degrees, planetographic exactly if asked for, a longitude plane the "
  "longitude in degrees in [0, 360] whatever turn it is given in, and planes of the cosines of the emission, incidence and phase angles the cosine "
  "for the given observer, sun and range at that point, never beyond one; each times the scale plus the offset, for every point of the body.",
  ["inputs", "configurations"], "every point, observer, sun, range, scale and offset",
  "Tests read a few points; rounding and whole turns depend on the values of all angles.",
  ["lib/marc/LatitudeImage.cpp", "lib/marc/LongitudeImage.cpp", "lib/marc/MuImage.cpp", "lib/marc/Mu0Image.cpp", "lib/marc/CosPhaseImage.cpp", "lib/marc/VirtualImage.cpp"],
  [("scaling", "lib/marc/VirtualImage.cpp read_data()"), ("planes", "lib/marc/LatitudeImage.cpp, LongitudeImage.cpp, MuImage.cpp, Mu0Image.cpp, CosPhaseImage.cpp")])

P("P12", "Body geometry follows the oblate spheroid",
  "For any latitude, the radius given for an oblate body reaches its surface, planetographic latitude is that of the "
  "surface normal and the two kinds of latitude convert into each other and back, and the radii of curvature are those of "
  "the ellipse. The cosines of the emission, incidence and phase angles are those between the surface normal, the "
  "direction to the observer at its finite range and the direction to the Sun. A line of sight from outside yields the "
  "planetocentric latitude and longitude of the nearer point where it meets the body, or reports that it misses.",
  ["inputs"], "every pair of radii, latitude, longitude, range and line of sight",
  "Tests evaluate a few points of one body; the geometry must hold at every point a map element can show.",
  ["lib/marc/OblateSpheroid.cpp"],
  [("radii and latitudes", "lib/marc/OblateSpheroid.cpp centric_radius(), graphic_latitude(), centric_latitude(), M(), N()"),
   ("angles", "lib/marc/OblateSpheroid.cpp mu(), mu0(), cos_phase()"), ("line of sight", "lib/marc/OblateSpheroid.cpp ellipse_intersection()")])

P("P13", "Photo pixels and points of the body correspond through the camera",
  "A point of the body is located in a photo exactly if it is on the side facing the observer, within the emission angle limit "
  "and, if asked for, lit; it is located where the line of sight from the observer at its finite range through the point "
  "meets the image plane, lines increasing downward. A pixel is on the body exactly if its line of sight meets it, and "
  "yields the latitude and longitude, in the body's sense of rotation, of the nearer point; the two directions undo each other, and the sky mask "
  "of a photo holds exactly the pixels on the body. The sub-observation point (or the given point) lies at the given centre, north "
  "at the position angle, and angles in the photo are those seen by the observer.",
  ["inputs", "configurations"], "every body, observer, camera, position angle, point and pixel",
  "Tests locate a few points for one camera; orientation depends on observer, centre and position angle together, each photo having its own.",
  ["lib/marc/ViewingGeometry.cpp", "lib/marc/Geometry.cpp", "lib/marc/Matrix.h", "lib/marc/Vector.h"],
  [("locating", "lib/marc/ViewingGeometry.cpp latlon2pix(), pix2latlon(), is_visible(), body_mask()"),
   ("orientation", "lib/marc/ViewingGeometry.cpp finalize_setup(), rot_matrices()"), ("rotations", "lib/marc/Geometry.cpp, Matrix.h, Vector.h")])

P("P14", "Numerical solvers return true roots",
  "A quadratic equation yields its two real roots, the one nearer to zero second, exactly when its discriminant is not "
  "negative. Searching for the argument at which a function takes a given value rejects brackets whose ends do not enclose "
  "the value, and otherwise never yields a point outside the bracket; for smooth monotonic functions the function takes "
  "the given value at the point yielded.",
  ["inputs"], "every triple of coefficients; every bracket, value and function",
  "Tests solve a few equations; projections solve one per map element, with coefficients that depend on size, radii and latitude.",
  ["lib/marc/Mathematics.h", "lib/marc/root_find.cpp"],
  [("quadratic", "lib/marc/Mathematics.h quadratic_roots()"), ("root finding", "lib/marc/root_find.cpp")])
CAUGHT = {}
HOW = {
"P01": "`mapfactory.cpp`, bits: `make_map`/`plot` for u8, i16, i32, i64, f32, f64, any map size up to 2^32 elements, with a source image that answers arbitrarily and a projection stub that plots arbitrary elements in arbitrary order; ghost: one arbitrary element is watched, and the extrema of everything plotted. Invariants of the plotting loop are inferred and proved.",
"P02": "`extrema.cpp`, bits: every operation of `extrema<T>` from an arbitrary object satisfying the class invariant; histories follow by induction (each update/merge contract gives the extrema of the union).",
"P03": "`validate.cpp`, bits: acceptance is equivalent to membership in the domain, for every double.",
"P04": "`cylindrical.cpp`, math: constructor + `plot_map` against closed formulas, any size; the body's latitude conversions are uninterpreted functions (contracted in P12).",
"P05": "`mercator.cpp`, math: `plot_map` against the ellipsoidal Mercator equation; `root_find` by contract (P14).",
"P06": "`polar.cpp`, math: `plot_map` against Snyder's polar stereographic equations; `root_find` by contract (P14).",
"P07": "`orthographic.cpp`, math: constructor and `plot_map` for any size, observer, position angle, scale, body centre in the middle or at a given pixel, pole-on or not; `quadratic_roots` by contract (P14), which also checks that the equation it is given is that of the spheroid along the line of sight of the next element (ghost), for any depth. Maps whose centre is given by latitude and longitude, and the rejection of centres on the far side, are decided natively (bounded: maps up to 9 x 9).",
"P11": "`virtual.cpp`, math: each image asks the body (a contract that answers arbitrarily, P12) exactly the right question and returns its answer, converted, within range and scaled.",
"P12": "`spheroid.cpp`, math: every function of `OblateSpheroid` against vector formulas from first principles; `quadratic_roots` by contract (P14). Lemmas (the observer is away from the surface) guide the square roots.",
"P13": "`locate_priv.cpp`, math: `is_visible`, `latlon2pix`, `pix2latlon` for any rotation matrix, focal length, axis, centre and lens correction against the perspective equations; the body by contract (P12). `locate.cpp`, math: rotations, matrix and vector operations. The set-up of the orientation (`finalize_setup`), the mask and that both directions undo each other are decided natively through the public interface (h_photo_of_body, h_photo_of_point; bounded), since the code selects among candidate rotations by comparing rounded differences.",
"P14": "`solvers.cpp`, math: roots equal (-b -+ sqrt(d)) / 2a; the bracketed search over an uninterpreted function (loop invariants inferred: the iterate stays between the ends). That the function takes the value at the point yielded is decided natively only (cubics), since it needs smoothness of the function.",
"P09": "`photo.cpp`, bits: constructor and `read_data` of a photo of any size up to 65535 x 65535 with any content, margins, mask; the viewing geometry is a contract that answers arbitrarily; strategies that answer arbitrarily; `BilinearInterpolation` in reals. `photo_scan.cpp`: the loops that search for sky pixels, for one arbitrary pixel of the line or sample. That the weight is one of these distances (not only at most) is decided natively on small photos (h_weight_read, bounded).",
"P10": "`composite.cpp`: the three strategies over a list of any length of images that answer arbitrarily (ghost sums and counts, invariants inferred), and `MosaicImage`.",
}
