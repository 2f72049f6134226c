"""Writes properties.jsonl (run by hand after editing)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or [], "hook_needed": None},
    })


CUBE = "The suite evaluates one unit cube at a handful of stations"
PO, ST = "geec/polyhedron.py", "geec/station.py"

p("C01", "Attraction of a body equals Newton's law",
  "For every convex body given by its points, every observation point off the body's surface and every positive density and gravitational constant, the attraction vector returned for that body (in mGal) is the Newtonian attraction of the homogeneous solid. This includes observation points inside the body, in the plane of a face, on the extension of an edge and far away.",
  ["inputs"], "all bodies x all observation points x all densities and gravitational constants",
  CUBE + " against stored numbers; whole sign patterns (behind a face, in its plane, in line with an edge) of other bodies are never reached.",
  [PO, "geec/utils.py"], [("line integrals per edge, solid angle per face, sum over faces", "polyhedron.py Edge/Face/Polyhedron.get_gravity")], ["Polyhedron.get_gravity", "Station.compute_gravity"])
p("C02", "Gravity gradient tensor is the derivative of the attraction",
  "When the gradient is asked for, the 3x3 tensor returned (in Eotvos) is the matrix of spatial derivatives of the Newtonian attraction at the observation point, for every body, observation point off its surface, density and gravitational constant; it is symmetric, and traceless outside the body. The attraction returned with it is the same as without gradient, and without gradient the tensor is zero.",
  ["inputs"], "all bodies x all observation points x all densities and gravitational constants",
  CUBE + "; nine components with branch-dependent terms per edge and per face.",
  [PO], [("gradient terms per edge and per face", "polyhedron.py Edge/Face gradient code")], ["Polyhedron.get_gravity"])
p("C03", "Fields are proportional to density and gravitational constant",
  "Attraction and gradient scale exactly with the density and with the gravitational constant, for any real values of either (negative density contrasts and zero included), whether computed from the body or accumulated in a station.",
  ["inputs"], "all densities and gravitational constants, at every observation point",
  "The suite uses one density and one constant, so an offset, a wrong power or a threshold on either is invisible.",
  [PO, ST], [("single multiplication by density and constant", "polyhedron.py get_gravity")], ["Polyhedron.get_gravity", "Station.compute_gravity"])
p("C04", "Fields of several bodies add up in a station",
  "After any sequence of bodies has been computed at a station, the station's attraction and gradient are the sums of the fields of those bodies, each with its own density and constant, in any order; a body cut in two by a plane gives the same total. Something that is not a body is refused and leaves the station's totals as they were.",
  ["inputs", "histories"], "all sequences (bounded length) of bodies, densities, constants and gradient flags, and all field values",
  "The suite computes one body per station.",
  [ST, PO], [("accumulation into G and T", "station.py compute_gravity")], ["Station.G", "Station.T"])
p("C05", "A result depends on its own arguments only",
  "The field computed for a body at an observation point does not depend on what was computed before with the same or other bodies (other points, gradient flags, densities, or computations that failed part-way with an exception), nor on objects that share points or faces. Computing never modifies the arguments (points, observation coordinates) that were passed in, nor results returned earlier.",
  ["histories", "fault_sequences"], "all call histories (bounded) over shared bodies, with a failure at any numerical call",
  "The suite calls each function once on fresh objects; cached per-edge state makes the outcome depend on history.",
  [PO, ST], [("per-edge caches are reset for each observation point", "polyhedron.py Edge/Face")], ["Polyhedron.get_gravity", "Station.compute_gravity"])
p("C06", "The field follows the body when both are moved together",
  "Translating, rotating or mirroring body and observation point together leaves both fields as they were under a translation and rotates or mirrors the attraction vector and the gradient tensor with the body otherwise; scaling all lengths by a factor scales the attraction by that factor and leaves the gradient unchanged.",
  ["inputs"], "all translations, scale factors, rotations about an axis and signed axis permutations, at every observation point",
  "The suite has one placement and one size; absolute thresholds, axis mix-ups and origin-dependence show only elsewhere.",
  [PO, "geec/utils.py"], [("formulas in relative coordinates", "polyhedron.py")], ["Polyhedron.get_gravity"])
p("C07", "A body's faces close up and face outwards",
  "For every body built from points, each face's normal is a unit vector perpendicular to the face and pointing away from the body, each face's boundary is a closed loop running counterclockwise seen from outside, and each edge is used by exactly two faces, once in each direction. The faces together are the boundary of the convex hull of the points; points that do not span a volume are refused.",
  ["inputs"], "all point sets, whatever order the convex hull lists facets and vertices in",
  CUBE + "; orientation depends on the order in which the hull library lists vertices.",
  [PO], [("orientation of facets and pairing of edges", "polyhedron.py Polyhedron construction")], ["Polyhedron.faces"])
p("C08", "The field does not depend on how a body's points are listed",
  "Two lists of points with the same convex hull (another order, extra interior points, repeated points, another facet order in the hull, integer or strided arrays) give the same attraction and gradient at every observation point.",
  ["inputs"], "all orders and additions of points, at every observation point",
  "The suite lists one cube in one order.",
  [PO], [("convex hull and orientation of facets", "polyhedron.py Polyhedron construction")], ["Polyhedron.get_gravity"])
p("C09", "Longitudes are brought to -180..180 and nothing else changes",
  "Converting longitudes given in -180..360 of data in ellipsoidal coordinates yields longitudes in -180..180 that differ from the originals by a multiple of 360 degrees, and leaves latitudes, heights, the order of points and the reference system as they were. Data in ENU, ECEF or Cartesian coordinates are left untouched; converting twice changes nothing more.",
  ["inputs"], "all coordinates, for every coordinate system, for datasets, masses (also lists of them) and observers",
  "No test touches coordinate handling.",
  ["geec/crs.py", "geec/dataset.py", "geec/mass.py", "geec/observer.py"], [("wrap to 180, dispatch on the coordinate system", "crs.py wrap180, dataset.py to_lon180")], ["Dataset.to_lon180"])
p("C10", "Heights above a geoid become ellipsoidal heights, exactly once",
  "Converting heights of data in ellipsoidal coordinates adds to each height the height of the configured geoid (EGM84, EGM96, EGM2008, or none) at that point's latitude and longitude, leaves longitude and latitude as they were, and marks the vertical datum as the ellipsoid, so that converting again changes nothing. Data in ENU, ECEF or Cartesian coordinates are left untouched.",
  ["inputs", "histories"], "all coordinates, geoids and coordinate systems, repeated conversions",
  "No test touches coordinate handling; the geoid grids are not in the repository.",
  ["geec/crs.py", "geec/dataset.py", "geec/mass.py", "geec/observer.py"], [("geoid height added, vdatum updated", "crs.py ellipsoid_height, dataset.py to_ellipsoid_height")], ["Dataset.to_ellipsoid_height"])
p("C11", "Coordinate conversions keep the positions and describe them truthfully",
  "Any sequence of conversions to ECEF, to WGS84 and to a local ENU frame leaves every point at the same place on Earth, in order, and the dataset's reference system afterwards is the one asked for (name, WGS84 ellipsoid, ENU origin as given) with the vertical datum as it was. Cartesian data are never changed, ENU data are not moved to another ENU frame, and ECEF data stay ECEF.",
  ["inputs", "histories"], "all coordinates, origins, reference ellipsoids and conversion sequences (bounded length)",
  "No test touches coordinate handling; the state left by one conversion matters for the next.",
  ["geec/crs.py", "geec/dataset.py", "geec/mass.py", "geec/observer.py"], [("conversion functions update coordinates and CRS together", "crs.py *_to_*, dataset.py to_ecef/to_wgs84/to_enu")], ["Dataset.to_ecef", "Dataset.to_wgs84", "Dataset.to_enu"])
p("C12", "The reference system built is the one the configuration describes",
  "From a 'crs' section the reference system is built with the configured kind (case-insensitive, ellipsoidal when empty), the vertical datum (ellipsoid when empty), the axes of the named ellipsoid model, or the two given axes when no name is given, or WGS84 when neither is given, and for ENU the given longitude, latitude and altitude of the origin on that same ellipsoid. An unknown kind, vertical datum or ellipsoid name, or an ENU origin that is not complete, is refused with a configuration error.",
  ["configurations"], "all configurations: every kind, ellipsoid model and datum, all numeric axes and origins",
  "No test reads a configuration.",
  ["geec/crs.py"], [("reading of the crs section", "crs.py read_*/create_*/get_crs")], ["crs.get_crs"])
p("C13", "Points, bodies and stations are read as configured",
  "Coordinates are read in the order given from a list of points, else from the CSV file (no header, every row a point), else from the grid, which holds every combination of start + k*step below the end on each axis with x varying slowest and z fastest. Each mass keeps its own coordinates, density, gravitational constant and reference system, in the configured order; a missing file or no source at all is an error.",
  ["configurations", "inputs"], "all coordinate values, grids (bounded number of points), numbers of masses and stations",
  "No test reads a configuration.",
  ["geec/dataset.py", "geec/mass.py", "geec/observer.py"], [("choice of the source, grid construction", "dataset.py _read_coords, mass.py get_masses, observer.py get_observer")], ["dataset.get_dataset", "mass.get_masses", "observer.get_observer"])
p("C14", "The output table gives the total field at each configured station",
  "The table written by the run command has one row per configured station, in order, holding the station's coordinates (WGS84 longitude, latitude and ellipsoidal height, or the Cartesian coordinates as given) and the attraction and the six gradient components txx, txy, txz, tyy, tyz, tzz summed over all masses, each with its own density and constant, bodies and stations taken in the same frame. Columns are named with their units; without the gradient option the gradient columns are zero.",
  ["configurations", "inputs"], "all coordinates, densities and constants, every kind of reference system of masses and stations (bounded numbers of each)",
  "No test runs the command.",
  ["geec/cli.py", "geec/api.py", "geec/mass.py", "geec/observer.py"], [("run command: transform, accumulate, assemble the table", "cli.py run, api.py write_file")], ["the CSV file written"])
p("C15", "Cross products of vectors and batches of vectors",
  "The cross product helper returns V1 x V2 for any two 3-vectors, for a batch of vectors on one side the product with each of them in order, and for batches on both sides the products of each vector of the first with each of the second; vectors of another length are refused with a TypeError and the arguments are not modified.",
  ["inputs"], "all vectors; all batch sizes up to the bound",
  "The suite exercises it only through the cube.",
  ["geec/utils.py"], [("component formulas, recursion over batches", "utils.py cross_product")], ["utils.cross_product"])
p("C16", "Configuration layers override one another key by key",
  "A value set in the file given by the user wins over the same value in the user's configuration directory, which wins over the package default; every value not set by a higher layer comes from the next lower one, and which masses there are is decided by the highest layer that lists masses.",
  ["configurations"], "all numeric values in the layers, and every subset of keys set (within the families enumerated)",
  "No test reads a configuration.",
  ["geec/config.py", "geec/mass.py", "geec/observer.py"], [("order in which sources are added", "config.py setup")], ["config.setup", "mass.get_masses", "observer.get_observer"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
