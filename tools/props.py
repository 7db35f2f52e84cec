"""Source of properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json

P = []
B = "terragraph_planner/"


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [B + f for f in files],
            "mechanism": [{"name": n, "where": B + w} for n, w in mech],
        },
    })


prop(
    "C01", "Topology lookups always agree with the current elements",
    "After any sequence of additions, removals and re-additions of sites, sectors, links and demand sites, every lookup the topology offers (link between two sites or two sectors, reverse link, sectors of a site, sectorless links, successors and predecessors with or without wired links, colocated sites, site and sector ids by status and type, link site pairs, polarities, sorting) answers exactly what a plain scan of the current elements answers. "
    "Removing a site removes its sectors and links, removing a sector detaches the links that use it, nothing else changes, and a removed element can be added again as if it were new; an addition that refers to sites the topology does not have, or that repeats a site or sector id, is rejected and changes nothing.",
    ["histories"],
    "all histories of add/remove/re-add operations, valid and invalid, over all element kinds and link types",
    "Unit tests make a few additions on one fixed topology; index corruption needs particular operation orders (remove then re-add, duplicate links, colocated sites, wired and wireless in parallel).",
    ["common/topology_models/topology.py", "common/topology_models/link.py", "common/topology_models/site.py"],
    [("Topology add/remove and connectivity maps", "common/topology_models/topology.py"),
     ("Link orientation and sector ownership", "common/topology_models/link.py")])

prop(
    "C02", "Status and type rules of sites, sectors and links are always enforced",
    "Constructing a sector or link with a status, or assigning one to a site, sector or link, succeeds exactly when the rules allow it given the present status of the site or end sites: an existing or unavailable site never changes status nor becomes one by assignment; a sector of an inactive site has that site's status; an existing link needs two existing ends; an unavailable, unreachable or candidate end rules out the link statuses above it. A refused assignment raises a planner error and leaves everything as it was. "
    "The rules that tie elements together hold as well for any construction: rooftop and building id, device type and site type, sectors matching their site's device, links only between different sites with allowed types, no link with a sector on one end only, and active, wireless, wired, backhaul and channel predicates always agree with the values they are about.",
    ["histories"],
    "all sequences of attempted status assignments on all combinations of element types and initial statuses",
    "Tests assign a handful of statuses; legality is a relation over (site, site, sector, link) status tuples and assignment histories.",
    ["common/topology_models/site.py", "common/topology_models/sector.py", "common/topology_models/link.py", "common/configuration/enums.py"],
    [("status setters", "common/topology_models/site.py"), ("sector/link status validity", "common/topology_models/link.py"),
     ("StatusType/SiteType/LinkType helpers", "common/configuration/enums.py")])

prop(
    "C03", "Coordinates, distances, bearings and hashes are geometrically right",
    "Any valid location given in latitude/longitude or in UTM converts to the other and back within millimetres, in both hemispheres and every zone including zone edges, the equator and the antimeridian; coordinates outside the valid range are refused. Distances, bearings, translated locations and grid deltas agree with an independent computation on the same earth model, and copies of a location are equal and independent. "
    "Link distance, azimuth and elevation and their deviations are consistent with the locations of the two ends in both directions (3D distance never below the horizontal one, opposite elevations); angle differences are in (-180, 180] whatever the wrap-around; the geohash of a point decodes to a cell containing it.",
    ["inputs"],
    "all valid coordinates, UTM zones, altitudes and angles, including zone edges, the equator, the antimeridian and wrap-around angles",
    "Tests use a few points in one or two zones; sign, hemisphere, swap and wrap-around errors show only elsewhere.",
    ["common/geos.py", "common/utils.py"],
    [("UTM/lat-lon transforms, bearings, geohash, line/ellipse helpers", "common/geos.py")])

prop(
    "C04", "A planner configuration survives a round trip and rejects bad values",
    "Loading a YAML or JSON configuration file gives exactly the written values, in any key case and order, and the documented default for every omitted or empty field, with project-level radio values reaching every device; an unknown field is refused. Serialising any configuration to a dictionary and loading it back gives an equal configuration with equal values; two configurations are equal exactly when all their values are (lists of devices and files in any order), and comparing or serialising modifies neither. "
    "Every documented bound, file-extension and cross-field rule is enforced at its exact limit: a value outside raises a planner error, a value inside is stored. MCS, scan-pattern and antenna-pattern tables are read back value by value with the minimum-MCS and minimum-power filters applied, and malformed or unordered tables are refused.",
    ["configurations"],
    "all configurations, valid and with any one field out of range, missing, of another type or unknown",
    "Tests load two sample files; the rules are per field and cross-field over an unbounded value space.",
    ["common/configuration/configs.py", "common/configuration/utils.py", "common/configuration/enums.py"],
    [("ConfigParser load/dump/eq", "common/configuration/configs.py"), ("value checks", "common/configuration/utils.py")])

prop(
    "C05", "Every input site inside the boundary is loaded exactly once, as written",
    "Loading an input site file (CSV, KML or KMZ; any documented column or field name, in any letter case, decimal or degree-minute-second coordinates) yields, for every row inside the boundary polygon and no other, one site of the row's type and position for the device it names, or one for each device fit for its type when it names none, with the row's name (extended by the device SKU when several sites share it), status, location type and number of subscribers; identical rows count once. "
    "An altitude given is kept; otherwise it is the surface height at the site plus the given height, or else plus the default for its location and site type, where an unknown location is a rooftop if the surface stands at least 2 m above the terrain. Unknown or unfit devices, a name used twice for one device, unknown site types, missing or repeated columns and malformed or out-of-range coordinates are refused with a planner error. Boundary polygons and the exclusion zones wholly within the boundary are read exactly as drawn.",
    ["inputs"],
    "all input files with any mix of rows, columns, formats, device lists, boundaries and terrain",
    "Tests load small fixed files; losing, merging or mis-typing a row depends on row content, order, format and boundary.",
    ["common/data_io/input_sites_loader.py", "common/data_io/input_sites.py", "common/data_io/csv_library.py", "common/data_io/kml_library.py", "common/data_io/data_key.py", "common/data_io/utils.py"],
    [("row parsing and validation", "common/data_io/csv_library.py"), ("KML extraction", "common/data_io/kml_library.py"),
     ("boundary filter and altitude fill", "common/data_io/input_sites_loader.py")])

prop(
    "C06", "Topology files written by the planner read back as the same topology",
    "Writing any topology as a KML file gives a well-formed document in which every site, link, demand site and demand connection to an active site appears exactly once, in the folder of its status and type, with its name, coordinates and attributes, whatever characters the names contain; reading it (or a KMZ of it) back gives the same sites (type, status, position, altitude, location type, device, subscribers), demand sites and wireless links (status, type, confidence as printed) in every direction the site types allow, and a second write and read changes nothing. "
    "A hand-written candidate topology in KML, KMZ or zipped CSV is read likewise: links join the sites they name, or all sites at the position within 10 m of each end when they do not name both; wired links are skipped; unknown names, ends too far from any site, conflicting statuses, repeated CSV links and missing files or columns are refused with a planner error.",
    ["inputs"],
    "all topologies: any element mix, names with markup characters, colocated sites, wired links, every status, large and negative values",
    "Tests round-trip one small topology; loss depends on names, values, statuses and on parallel elements.",
    ["common/data_io/topology_serializer.py", "common/data_io/csv_library.py", "common/data_io/kml_library.py", "common/data_io/data_key.py"],
    [("dump_topology_to_kml/csv", "common/data_io/topology_serializer.py"), ("load_topology_from_*", "common/data_io/utils.py")])

prop(
    "C07", "Elevation rasters are loaded and looked up without moving or changing values",
    "For every loaded elevation grid and every point, the elevation returned is that of the grid cell whose reference position is nearest to the point (clamped to the grid at its edges, rows running north to south), where a void (no-data) cell takes the value of the nearest known cell within 50 m of it, or else the mean of all known cells, and an all-void grid is an error; asking twice gives the same answer, looking up never changes known cells, and the lookups over a box (obstructions, matrix, list) return exactly the cells of the box with those values and positions. "
    "Loading one or several GeoTIFF tiles in any order, cropping them to the bounding box, writing and reading them again never moves or changes a cell, and cells without data in any source stay void; resampling takes the nearest source cell. "
    "Surface, terrain and height rasters given in any combination yield surface = terrain + height at every cell where both are known and void elsewhere, grids with different frames are never combined, and files whose collection time is malformed, in the future or more than 20 years old or whose cells are outside 0.15 to 35 m are refused with a data error.",
    ["inputs"],
    "all rasters (size, resolution, origin, no-data pattern, overlap of tiles) and all query points incl. cell edges",
    "Tests use one tiny raster; off-by-one, axis swaps and no-data leaks need particular geometry.",
    ["los/elevation.py", "common/data_io/elevation_loader.py", "common/data_io/elevation_rules.py"],
    [("Elevation matrix lookup", "los/elevation.py"), ("GeoTIFF loading", "common/data_io/elevation_loader.py")])

prop(
    "C08", "Line of sight and its confidence match the obstruction geometry",
    "Two antennas are in line of sight exactly when they are not at the same spot or on the same known building, their distance is within the given limits, the elevation angle between them is at most the maximum, the straight line between them on the map meets no exclusion zone, and no obstruction comes closer than the required share of the zone radius; in every other case the confidence is 0. "
    "With a surface, the confidence of a line of sight is the smallest clear radius divided by the zone radius: an obstruction is the column of ground up to a cell's height at its reference position, measured from the axis in the cylindrical model (only where it lies beside the axis), and by the largest ellipsoid (or, for columns reaching above the axis, ellipse on the map) that it does not touch in the ellipsoidal model, whose zone radius is half the root of wavelength times distance; without a surface it is 1. "
    "The answer does not depend on which end is named first; raising an obstruction never raises the confidence, anything outside the zone never changes it, and a lower threshold never loses a line of sight or changes its confidence.",
    ["inputs"],
    "all terrains, exclusion zones, antenna positions and heights, radii, frequencies and thresholds",
    "Tests check a few hand-made obstructions; geometry is continuous and errors sit at particular angles, heights and zone edges.",
    ["los/cylindrical_los_validator.py", "los/ellipsoidal_los_validator.py", "los/base_los_validator.py", "los/fresnel_zone.py"],
    [("confidence computation", "los/cylindrical_los_validator.py"), ("Fresnel zone geometry", "los/fresnel_zone.py")])

prop(
    "C09", "LOS results do not depend on batching, parallelism or order",
    "Computing line of sight for a list of candidate pairs reports every pair that the line-of-sight rules admit, with the confidence computed for that pair alone, exactly once in each direction the pair asks for and no other pair, whatever the number of worker processes, the partition into batches, the order in which sites and pairs are listed, and the order and delay with which workers finish; sites that share a position but differ in building or location type never inherit each other's result. "
    "An error raised while any pair is evaluated is an error of the whole computation, never a set of missing links.",
    ["schedules", "inputs"],
    "all numbers of processes, batch partitions, completion orders and site sets incl. colocated sites",
    "Tests run one process on a few sites; lost or duplicated pairs and cache mix-ups need particular partitions and orders.",
    ["los/core.py", "los/helper.py"],
    [("compute_los and its process pool", "los/core.py"), ("candidate pair generation, batch LOS with memo", "los/helper.py")])

prop(
    "C10", "The candidate network has exactly the links and sites the inputs justify",
    "The candidate network built from input sites, devices, terrain, building outlines and a base network keeps every input site and every base site and link as given (inputs alike in position, type and device count once), and adds no new link between two base sites. Between every other pair of sites it has exactly the wireless links whose distance lies between the minimum line-of-sight distance and the smaller of the configured limit and what the two devices can bridge at the required MCS, whose elevation angle is within the limit, which have line of sight at the confidence threshold, and whose direction suits the site types: from POP or DN to DN, from DN to POP, from POP or DN to CN, nothing from CN and nothing between POPs. A new link carries its true length, azimuth, elevation deviation and confidence; it is UNAVAILABLE or UNREACHABLE when one of its ends is, absent when both kinds of end meet, and CANDIDATE otherwise. With site detection every building keeps one place among its detected ones, with the most lines of sight, holding one site per CN device and, when DN deployment is on, one per DN device; a further DN site of a building is added only where it connects to the network from a POP and serves a CN that would otherwise be cut off, and no CN stays cut off which such a site, or a chain of up to three of them, could serve. Detected sites are ROOFTOP, CANDIDATE and tagged with their building. Detection without the devices it needs is refused.",
    ["inputs", "configurations"],
    "all site sets, terrains, device tables, thresholds and base networks",
    "Tests build one topology; completeness and soundness over all pairs needs an independent recomputation.",
    ["los/core.py", "los/helper.py", "common/topology_models/link.py"],
    [("construct_topology_from_los_result / add links", "los/helper.py"), ("compute_los / generate topology", "los/core.py")])

prop(
    "C11", "Rooftop sites are detected on every building, in the right places",
    "Building outlines are read from KML/KMZ files and zipped shapefiles in any coordinate system, flat or with heights, courtyards included; a shapefile archive without exactly one shapefile at its top level, without coordinate system or with shapes other than polygons is refused, while a __MACOSX folder is ignored. "
    "Of every valid outline exactly the parts inside the boundary that are larger than 50 square metres are kept, whatever way they meet the boundary, and written outlines read back the same. "
    "Site detection proposes, per building and tagged with that building: with centers, one site at the centroid, or elsewhere on the building when the centroid is off it; with highest, one site at the highest surface cell whose center is on the building, or at the center when there is none or no surface; with corners, up to three different vertices of the outline, only ones whose angle lies between 30 degrees and the configured maximum when one is set and any has such an angle. "
    "A site's altitude is that of the surface there plus the mounting height, a corner at a wall taking the height of a cell within one metre that rises more than 2 m above its neighbour; without surface data sites have no altitude. "
    "The height map of the buildings has the building height on cells inside outlines and zero outside.",
    ["inputs"],
    "all building sets (convex, concave, with holes, tiny, adjacent) and boundaries, with and without terrain",
    "Tests use a couple of rectangles; polygon orientation, holes, overlaps and boundary clipping vary without bound.",
    ["los/building.py", "los/building_group.py", "common/data_io/building_group_loader.py", "common/data_io/building_group_rules.py"],
    [("site detection on corners", "los/building.py"), ("building index", "los/building_group.py")])

prop(
    "C12", "Link budgets follow the radio equations and never improve with loss",
    "For any pair of radios, distance, angles and weather, the received power is transmit power plus both antenna gains (boresight plus diversity plus the entry of the antenna or scan pattern nearest to the link's deviation, a scan pattern relative to its best value) minus both miscellaneous losses, free-space loss (never below zero), oxygen loss (interpolated from the table by frequency) and the documented rain loss; SNR subtracts noise figure and thermal noise. "
    "The maximum power is the configured maximum capped by the EIRP limit, but not below the minimum power. "
    "The class of a link is the highest class of the MCS table whose SNR threshold is reached at maximum power and whose required power, at least the minimum power, does not exceed the maximum minus that class's backoff, whatever gaps the table has, and zero without rate below the lowest; the capacity is that class's rate; transmit power is the maximum minus the backoff, and the adjusted power the lowest that keeps the class. "
    "More distance, rain, required availability or loss never raises received power, class or capacity.",
    ["inputs", "configurations"],
    "all distances, frequencies, gains, MCS tables, antenna patterns, rain/temperature/pressure/humidity values",
    "Tests compare a few numbers; table edges, missing columns and iteration around backoff need a sweep against an independent model.",
    ["common/rf/link_budget_calculator.py"],
    [("get_fspl_based_rsl / get_link_budget / gaseous and rain loss", "common/rf/link_budget_calculator.py")])

prop(
    "C13", "The maximum line-of-sight distance is the reach of the device pair",
    "For every transmitting DN device and receiving device the maximum line-of-sight distance is the first whole metre at which the link budget with the receiver's MCS table, restricted to the required minimum class for its kind of link, gives no rate, capped by the configured limit: every shorter whole distance is usable and from it on none is. For two DN devices it is the larger of both directions and equal both ways. "
    "It does not depend on the order of the devices; no entry exists for a transmitting CN; a required class beyond the table is refused, as is a reach beyond the 10 km the model allows. "
    "The search over any range returns the first distance without rate, the lower bound when even that has none, and nothing when all have.",
    ["configurations"],
    "all device lists, link-budget tables and search limits",
    "Tests compute it for one or two devices; the search must be right for every budget curve incl. never/always usable.",
    ["los/helper.py", "common/rf/link_budget_calculator.py"],
    [("search for max LOS distance", "los/helper.py")])

prop(
    "C14", "Sectors cover all wireless links that the device can cover",
    "Creating sectors for a candidate network gives every DN/POP site without sectors at most the device's number of nodes, each with exactly its number of sectors one scan range apart round the circle, nodes not overlapping, none covering no link, new sectors being candidates (or sharing an inactive site's status); on the 3 degree pointing grid no placement of that many nodes covers more links, nor deviates less (squared angle weighted by distance) with as many covered. "
    "A CN without sectors gets one node with the least squared angle to the sites transmitting to it. Sectors given beforehand are kept and accepted exactly when they form such a legal layout. "
    "Every wireless link gets the nearest sector of its own sites at both ends (same for its reverse) when both lie within half the scan range (any angle for a CN), else none; then a link already in use is an error; wired links get none. "
    "The result does not depend on element order, on turning the network by a grid step, or on doing it twice.",
    ["inputs", "configurations"],
    "all link azimuth sets round the circle, device layouts, wired links and preexisting sectors",
    "Tests check a few hand-placed links; wrap-around at 0/360, ties and multi-node packing need a sweep.",
    ["optimization/topology_preparation.py", "common/topology_models/sector.py"],
    [("add_sectors_to_links / find best sectors", "optimization/topology_preparation.py")])

prop(
    "C15", "Demand sites represent exactly the configured demand models",
    "With the CN model there is one demand site per CN position, carrying the CN's number of subscribers; with the uniform model one per point of a regular grid at the configured spacing (starting one spacing south-west of all sites, ending within one spacing beyond them, also across the antimeridian) that has a site within the radius; with the manual model exactly the given ones (otherwise given ones are dropped). All enabled models apply together, no point is missing, doubled or in excess, and having none at all is an error. "
    "Each carries the configured demand and is connected, once each, to exactly the sites within the radius (uniform, manual) or the CNs at its position (CN model), plus every DN/POP that shares the exact position or the known building roof of a connected CN. "
    "Adding demand changes no site, link or sector, does not depend on the order of sites, and repeating it gives the same.",
    ["inputs", "configurations"],
    "all topologies, demand models, spacings, radii and mixtures of models",
    "Tests place a few sites; coverage of a grid and radius edges depend on geometry and latitude.",
    ["optimization/topology_demand.py", "common/topology_models/demand_site.py"],
    [("add_demand_to_topology", "optimization/topology_demand.py")])

prop(
    "C16", "Preparation computes right capacities and admits only coherent networks",
    "Status validation accepts a network exactly when every backhaul (and wired) link has its reverse, a link and its reverse share one status, existing links join existing sites (and, if wireless, existing sectors), proposed links active sites (and, if wireless, active sectors), and candidate links no unavailable or unreachable site or sector; links without reverse are judged alike. "
    "Preparation gives wired links the POP capacity, links without sectors none, and all others the class, rate and power of the link budget of their two devices (receiver's MCS table, transmitter's maximum power and EIRP limit) at their 3-D distance, straight ahead; with deviation also the patterns at the angles from the sectors' aim and the elevation (none at a CN). "
    "It changes no site and no status, preparing twice gives the same, and planning without a POP (unless extra POPs are asked for) or without anything to serve is refused.",
    ["inputs", "configurations"],
    "all topologies with all status mixes, link types and device tables",
    "Tests prepare a few fixed topologies.",
    ["optimization/topology_preparation.py"],
    [("prepare_topology_for_optimization, validate_topology_status, add_link_capacities", "optimization/topology_preparation.py")])

prop(
    "C17", "Deployment rules mark exactly the links that break them",
    "For every site and every two of its outgoing wireless links that leave from different sectors, the pair is reported under the sector-angle rule exactly when the angle between them on the ground (taken round the circle) is within the different-sector limit, and otherwise under the near-far rule exactly when that angle is within the near-far limit and one link is at least the configured ratio longer than the other; when only the network in use is examined, only active links whose two sectors share a channel count. "
    "The links named for a set of such pairs are exactly the existing links, in either direction, between the sites of the pairs. "
    "A DN sector in use is reported as over its limit exactly when its links in use to DNs, or in total, exceed the allowed number, together with the sectors in use that it reaches.",
    ["inputs", "configurations"],
    "all azimuth/distance sets, sector assignments and limits, incl. boundaries and wrap-around",
    "Tests check three or four angles.",
    ["optimization/deployment_rules.py"],
    [("deployment rule pairs", "optimization/deployment_rules.py")])

prop(
    "C18", "Interference, SINR and transmit power agree with the radio model",
    "The interference on a link in use is the sum, over every other sector in use that the link's receiving sector hears (a wireless link between the two exists, both sectors and sites are in use, the sites' polarities are opposite or unassigned with a CN taking the opposite of its serving site, channels equal or unassigned), of the mean power received from that sector's other non-redundant wireless links in use (not those to either end sector of the link) through both antenna patterns turned to where the beams point; SINR is signal over noise plus that sum, and links not in use are left alone. "
    "After power control every link in use has the class its SINR and power limits allow with that class's capacity, a power between its minimum and the maximum less the class's backoff (or is off at class 0), once settled the lowest power that keeps the class, never a better class than without interference, and without interference the same class; links not in use keep their values and no plan element changes. "
    "Before planning, the worst-case interference of each wireless link is its maximum power plus the gain of both antenna patterns off their boresights.",
    ["inputs", "configurations"],
    "all active link sets, sector layouts, polarities, channels and antenna patterns",
    "Tests compute two-link examples; sums over many sectors with angle wrap-around need an independent evaluation.",
    ["optimization/topology_interference.py"],
    [("interfering RSL and SINR", "optimization/topology_interference.py")])

prop(
    "C19", "Graph analyses equal a brute-force walk of the network",
    "Hop counts of sites are the fewest links from any POP over sites and links with the accepted statuses; marking unreachable components sets exactly the candidate sites that no POP reaches (or that exceed the hop limit, when given) to unreachable, together with their links (unavailable ones stay unavailable) and sectors, and nothing else. "
    "The demand reported connected, the demand cut off by the loss of each single wireless backhaul link (both directions at once) and of each single POP or DN equal what removing that element and walking the network again gives; wired and access links are not counted as link failures. "
    "A demand not at a POP has disjoint paths exactly when it stays connected after the loss of any one link that does not end at a CN. Routes from the POPs use only active links and, per routing method (fewest hops, least MCS cost with wired links at cost 1, or least MCS cost within the zone of the nearest POP), each demand is reached at the least cost, over no other links. "
    "The maximum capacity out of the POPs is the sum over POPs of their wired capacity plus the best link of each sector, capped at the POP capacity. Links assumed to fail number at most the requested share, each cuts some demand of the plan, and together they cut nothing from the network of candidates with capacity; any other link with a larger effect would. "
    "The analyses work on disconnected, cyclic, one-way, wired and zero-capacity networks and leave graph and plan as they were, in any order.",
    ["inputs"],
    "all network graphs and statuses",
    "Tests walk fixed graphs of a few nodes.",
    ["optimization/topology_networkx.py", "optimization/topology_operations.py"],
    [("networkx helpers", "optimization/topology_networkx.py"), ("hops_from_pops, mark_unreachable_components", "optimization/topology_operations.py")])

prop(
    "C20", "Simulated availability matches the exact availability of the network",
    "The availability simulated for each demand that the active POPs reach agrees, within the sampling error of the simulated time, with the exact probability that it stays connected when every wireless backhaul link (both directions together) is up independently with the given link availability, from 0 to 100 percent; the simulated availability of each such link agrees with that percentage. "
    "All values lie in [0, 1]; a demand that no combination of link failures cuts off has exactly 1; a demand (or link) that is up whenever another one is never gets the lower value; wired and access links do not fail; demands that are not connected are not reported. "
    "A run stopped by its time limit reports the fractions of the time simulated so far. The result is repeatable for a given seed and changes with the seed; graph and plan are left unchanged; invalid percentages, lengths and one-way backhaul are refused.",
    ["inputs", "schedules"],
    "all graphs, link availabilities, simulation lengths and random seeds",
    "Tests run one small graph with loose bounds; bias shows only against exact enumeration on many graphs.",
    ["optimization/topology_availability.py"],
    [("link failure simulation", "optimization/topology_availability.py")])

prop(
    "C21", "Reported counts, costs and tables equal the plan they describe",
    "Counts of sites (per type, in use, in total and reachable from a POP; candidates of one type at one place count once in the totals), nodes, sectors, links (a pair of directions counts once), devices and channels, CNs with more than one DN in use that could serve them, and sites with demand equal a recount of the elements of the plan. "
    "Capital expenditure is the price of every site in use by type plus the node price of every node with a sector in use, split into proposed and total with existing. "
    "Demand, flow, length, MCS, links-per-sector, failure, availability and violation metrics are the counts, averages, maxima, minima and percentiles of the values of the elements they describe. "
    "The site, link and sector tables have one row per site, per link direction and per sector in use; each cell is the value of that element (both directions of a link report the outages it causes; a link at a sector over its limit is flagged), rounded as printed; the CSV and YAML files hold the same values. Reporting changes no status, position or connection.",
    ["inputs", "configurations"],
    "all planned topologies (empty, wired, disconnected, no demand) and price tables",
    "Tests compare one plan; miscounts depend on mixes of statuses and kinds.",
    ["optimization/topology_component_counter.py", "optimization/topology_report.py"],
    [("component counters, capex", "optimization/topology_component_counter.py"), ("analyze", "optimization/topology_report.py")])

prop(
    "C22", "The minimum-cost plan is feasible and truly cheapest",
    "For a candidate network and a required share of the demand, the least-cost plan satisfies every planning constraint: traffic is conserved from POPs to demand without circulating, stays within link capacity times time share, time of each sector, and POP capacity, and meets the required share (of the total, or for each connectable demand site with common bandwidth); links in use are exactly those usable ones between active sites whose ends have opposite polarity (wired and CN links excepted); each active DN and POP has one polarity; nodes in use are those with a link in use; at most one site stands per place and an active one is only replaced by upgrading a CN; proposed and existing sites (and POPs, if always active) stand; unavailable and unreachable elements and links without capacity or sectors are never used. "
    "No legal choice of sites that could meet the requirement costs less (existing sites are free; a site costs its capex plus all its nodes), the reported cost is that of the active sites and nodes, and no plan is returned exactly when none is possible. "
    "Asking one model for another share gives what a fresh model gives, a smaller share never costs more, and planning leaves the network unchanged.",
    ["inputs", "configurations"],
    "all small candidate networks, statuses, prices, demands and capacities",
    "No ILP test compares with exhaustive search, and none runs where the commercial solver is absent.",
    ["optimization/ilp_models/cost_optimization.py", "optimization/ilp_models/network_optimization.py", "optimization/ilp_models/optimization_setup.py"],
    [("MinCostNetwork and shared constraints", "optimization/ilp_models/network_optimization.py")])

prop(
    "C23", "Coverage maximisation stays in budget and serves the most demand",
    "For a candidate network, a budget and a set of adversarial links, the coverage plan satisfies the same planning constraints as the minimum-cost plan, costs no more than the budget (everything not existing counts, each site with all its nodes), carries no traffic over adversarial links, and serves as much demand (or as large a common bandwidth of the connectable demand sites) as the best legal choice of sites within the budget could. "
    "Without a positive budget, a legal affordable choice or any servable demand there is no plan; a larger budget or fewer adversarial links never covers less; planning leaves the network unchanged.",
    ["inputs", "configurations"],
    "all small candidate networks, budgets, prices and adversarial link sets",
    "No test that runs here exercises it; optimality needs exhaustive comparison.",
    ["optimization/ilp_models/coverage_optimization.py", "optimization/ilp_models/network_optimization.py"],
    [("MaxCoverageNetwork", "optimization/ilp_models/coverage_optimization.py")])

prop(
    "C24", "Redundant plans survive the failures they promise at the least cost",
    "Adding redundancy to a plan (at least one POP in use, at most one site in use per place, some demand connectable) never fails and drops nothing of the plan: every site, link and status in use stays (a planned CN may give way to a DN added at its place), only candidate DNs are added, at most one POP or DN stands per place, wireless links in use join opposite polarities, and links and sectors are used exactly where their sites, polarity and sectors allow. The input network and parameters stay as they were. "
    "Every DN of the plan without a reported shortage still reaches a POP over links in use after any one link fails (LOW), any one other DN or, with several POPs, POP (MEDIUM), or any two other DNs with one POP, any three DNs or a POP and a DN with several (HIGH); in general it has as many disjoint paths (within the capacities asked for) as the level wants less its shortage, and never fewer than before. DNs without any backhaul link are left out. "
    "Without a restriction on links the total shortage is the least any choice of candidate DNs and polarities allows, and no cheaper choice gives every DN as many paths; the cost is that of the sites and sectors not yet existing. "
    "The links preselected for this step are usable backhaul links and keep, for every POP in use and DN in use, as many disjoint paths as the full network (up to the number asked for), and as many between each DN in use and its nearest one, however the DNs lie (in a row, too).",
    ["inputs", "configurations", "fault_sequences"],
    "all small candidate networks and all single and double failures of links and sites",
    "No test that runs here removes each element in turn.",
    ["optimization/ilp_models/redundancy_optimization.py"],
    [("RedundantNetwork, candidate edges", "optimization/ilp_models/redundancy_optimization.py")])

prop(
    "C25", "Links planned under interference obey every rule and are best chosen",
    "Given the sites of a plan, signal levels, interfering levels and pairs of links the deployment rules forbid (at most one POP or DN in use per place, no demand above the largest link capacity), the links chosen are usable links between the plan's sites, in both directions where both can be used; existing links stay, wired links with capacity that are not unavailable are in use between sites in use, and sites with neither links nor demand are not. "
    "Ends of a wireless link between POPs or DNs have opposite polarities unless polarity is ignored, a CN has at most one incoming link, no sector serves more DNs or links than allowed, all sectors of a node with a link are on and no others, each on one channel equal at both ends of every link, and of a forbidden pair (unless both exist) not both are active on one channel. "
    "Traffic uses only these links, within capacity, time share and the rate that the SINR allows (interference from sites of equal polarity and equal channel that reach the same receiving sector, or for a CN its beam, in the share of time they transmit elsewhere), time shares per sector sum to at most one, and is conserved up to the reported shortage. "
    "The choice minimises total demand times shortage minus the weighted number of active wireless links (weight 2 minus length over the longest); asked for a common bandwidth, the most connectable demands are served and that bandwidth times their number takes the place of the shortage, unless no bandwidth is worth it. There is no plan only if none is legal or none with traffic is worth more. The inputs stay as they were.",
    ["inputs", "configurations"],
    "all small candidate networks, sector layouts, polarities, channels and rule limits",
    "No test that runs here exercises it.",
    ["optimization/ilp_models/interference_optimization.py"],
    [("MinInterferenceNetwork", "optimization/ilp_models/interference_optimization.py")])

prop(
    "C26", "Plan traffic is conserved, within capacity, equal, greatest and loop free",
    "For any plan with a POP in use, the connected demands are exactly those with a site reachable from POPs in use over links in use between sites in use that have capacity, are on the chosen routing (not redundant) and, if wireless, have sectors; links on existing sectors count as much as those on proposed ones. "
    "Every demand (each copy of a multiplied one) that is connected receives the same bandwidth and every other nothing, only from its own sites, and this common bandwidth is the largest any routing allows, given that a site hands one demand at most the largest link capacity. "
    "Traffic enters only at POPs, is conserved at every site, uses no other link, never exceeds link capacity, the link's time share or POP capacity, time shares of each sector sum to at most one per direction, and no traffic circulates. Wired links need no time share. Without connected demands there is no answer; the plan is refused only when no POP or demand site has a link with capacity. "
    "The analysis of a plan keeps every status, reports that bandwidth and its total over connected demands, stores each link's flow and utilisation (the loaded direction of each pair) and their average, largest and smallest (zero without links), and with a routing method disconnects nobody.",
    ["inputs", "configurations"],
    "all networks, capacities and demands",
    "No test that runs here solves a flow; optimality and conservation need an independent computation.",
    ["optimization/ilp_models/flow_optimization.py"],
    [("MaxFlowNetwork", "optimization/ilp_models/flow_optimization.py")])

prop(
    "C27", "Proposed POPs are eligible, bounded in number and best placed",
    "Proposing extra POPs for a network in which every DN place free of POPs could hold one, CNs being served over access links (no demand wanting more than the largest access link carries), gives a legal choice of sites: at most the requested number of extra POPs, each at a usable DN's place, every active input POP kept, existing sites kept, one site per place, the flow over usable links and the deployment rules respected. "
    "As many POPs stand as input POPs plus the requested extra ones or, if fewer, as there are places for them; and the unserved demand is the least that any such legal choice allows, whether the DNs there are candidates or already stand (the optimum up to solver tolerance). The caller's topology and parameters stay as they were. "
    "Adding the POPs found gives each chosen DN a candidate POP twin at its place with the same device, location type, building and sectors (node, position, azimuth, channel), candidate copies, in the same direction and with their own equal link budget, of the DN's usable links to CNs and DNs (none to POPs, none from unavailable, unreachable or sectorless links), and connects it to the demand of the DN; every other site, sector, link and demand stays as it was.",
    ["inputs", "configurations"],
    "all small networks and numbers of POPs",
    "No test that runs here exercises it.",
    ["optimization/ilp_models/pop_proposal_optimization.py"],
    [("POPProposalNetwork, add_duplicate_pop_to_dn_site", "optimization/ilp_models/pop_proposal_optimization.py")])

prop(
    "C28", "After optimization sectors are re-aimed without breaking the plan",
    "Re-aiming the sectors of a finished plan that obeys the deployment rules (sectors as the planner created them, none marked existing; each CN with at most one link in use) keeps every wireless link in use in a sector at each of its ends: a sector of that site, within half its scan range of the link (plus 0.01 degree) and nearest to it, proposed, with the channel the link had before; the two directions of a link use the same two sectors, and wired links have none. "
    "The new layout is legal (nodes and sectors per node of the device, a scan range apart, no overlap), every node left serves a link in use, and a node's sectors are proposed exactly when one of them serves such a link. The plan still obeys the sector limits, different sector angle, near-far and channel rules. "
    "The weighted deviation of the links in use from their sectors (squared angle times length, backhaul counting eight times) never gets worse, and where no rule interferes it is the least possible on the 3 degree grid. Sites, statuses and polarities stay, and sites without a wireless link in use keep their sectors as they were.",
    ["inputs", "configurations"],
    "all plans, sector layouts and azimuth sets",
    "Tests re-aim one or two sectors.",
    ["optimization/topology_preparation.py"],
    [("readjust_sectors_post_opt", "optimization/topology_preparation.py")])

prop(
    "C29", "End-to-end optimization yields a legal, connected, fully reported plan",
    "Planning and reporting a candidate network in which anything can be served either declines for lack of links, POPs, capacity or demand or ends with a complete plan: existing and unavailable sites and links keep their status, no input site or link is lost or altered, at most the allowed number of extra POPs is added (each at a DN's place), every status is legal for its ends and sectors, and every proposed site and link is reached from a POP in use over elements in use. "
    "Links in use have sectors on one common channel at both ends (if wireless), the same status as their reverse, opposite polarities between DNs and POPs, and each CN is served by at most one; no two proposed sites share a place. "
    "The reported capex and counts are those of the plan, as are the connected demands; the tables list every site and link (and each sector in use), and the reported topology reads back with the same sites, statuses and wireless links. "
    "Writing any decision into a network gives mutable elements chosen PROPOSED and others CANDIDATE, with the chosen polarity and channel, takes back whatever no POP in use then reaches, and leaves every status combination legal.",
    ["inputs", "configurations"],
    "all candidate networks and optimizer configurations",
    "Tests that would run the optimizer need the commercial solver; they check only a few fixed topologies.",
    ["optimization/topology_optimization.py", "optimization/topology_report.py"],
    [("optimize_topology", "optimization/topology_optimization.py")])

prop(
    "C30", "Results do not depend on hash seeds, processes or listing order",
    "Planning the same candidate network, or surveying the same input files (with or without building outlines), gives the same sites, sectors, links, demand sites, tables and refusals (numbers up to rounding) in every process, whatever its hash seed and whatever ran there before. "
    "A prepared network yields the same plan and the same reported tables whatever the order in which its sites, sectors, links, demand sites and connected sites were added. "
    "A survey of user sites and a base network yields the same candidate sites and links, with the same attributes, whatever the order of the rows of the site file and of the placemarks of the base file, and whatever the number of worker processes.",
    ["schedules", "inputs"],
    "all inputs, listing orders, hash seeds and numbers of processes",
    "Tests run each input once in one process.",
    ["common/topology_models/topology.py", "optimization/topology_preparation.py", "los/helper.py"],
    [("sorting of the topology and sets", "common/topology_models/topology.py")])

prop(
    "C31", "A run from a configuration file does what the file says",
    "A run started from a YAML or JSON configuration file does exactly what the same settings passed in directly do: a line-of-sight run finds the same candidate network and an optimization run the same plan, tables and metrics (or the same refusal), settings left out keeping their defaults. "
    "An optimization run plans the network of the candidate topology file when one is named, otherwise the network the line-of-sight run of the same file finds. "
    "Everything a run writes lies under the configured output folder (by default the working folder): its results in `output/` and, only in debug mode, the intermediate networks and solver problems in `debug/`; input files stay as they are and debug mode leaves the results unchanged. "
    "From then on messages of the configured level and above, and none below, go with their level to the configured log file and, if asked for, to the standard error stream; the settings of a later run replace those of an earlier one.",
    ["inputs", "configurations", "histories"],
    "all configuration files and input files they name, and sequences of runs",
    "Tests parse a few configuration files but start no run from one.",
    ["common/utils.py", "los/core.py", "optimization/topology_optimization.py"],
    [("set_system_control_with_config_file", "common/utils.py")])

prop(
    "C32", "A solver that stops early or has no answer never breaks a plan",
    "Whatever the solver does within its rules at whichever step - stop early with any feasible answer, or run out of time or find the problem infeasible and give none - a run ends either in a plan as legal, connected and fully reported as any other, or in a refusal with no report written. "
    "No answer to the question of extra POPs gives the plan made without extra POPs, none to the redundancy or the extra-coverage step the plan made without that step, and none to the final flow problem the same plan reported without flow metrics. "
    "When full coverage gets no answer lower ones are tried; when none does the run is refused with nothing newly proposed, and it is refused too when the interference step has no answer; the refusal says timed-out exactly if the solver ran out of time. "
    "Either way the settings object stays usable: the same settings then plan a fresh copy of the network as if nothing had happened.",
    ["fault_sequences", "inputs", "configurations"],
    "all candidate networks and settings, solver outcomes and steps at which they happen",
    "Tests never make the solver fail, and those that solve anything need the commercial solver.",
    ["optimization/topology_optimization.py", "optimization/ilp_models/network_optimization.py"],
    [("_run_min_cost_step", "optimization/topology_optimization.py"), ("did_problem_timeout", "optimization/ilp_models/network_optimization.py")])

prop(
    "C33", "The planning steps fit together",
    "Planning goes through prepared network, extra POPs, cheapest network, extra coverage or redundancy, and the final choice of links, and each step builds on the one before. "
    "The plan starts from the cheapest network for the highest share of the demand among 100, 90, 80, 70, 60 and 50 percent that can be served, and that step refuses only if none can. "
    "The extra POPs are those of the POP proposal. "
    "Adding coverage or redundancy keeps every site of the cheapest network in use, except that a CN may give way to a DN or POP at its own place. "
    "Extra coverage never makes new equipment cost more than the budget unless the cheapest network alone does, in which case nothing is added; what already stands is not charged to the budget, and money left is used when it lets more demand be served. "
    "Redundancy level NONE adds nothing. "
    "The final choice of sectors and links adds no site, and re-aiming sectors afterwards changes no status. "
    "In the plan, no two links in use on one channel from different sectors of a site break the different-sector or near-far angle rules (unless both stood before), and no sector exceeds its DN-to-DN and total link limits. "
    "In debug mode the networks written out are exactly those of the steps taken.",
    ["inputs", "configurations"],
    "all candidate networks, budgets and settings",
    "Tests solve single steps on fixed networks with the commercial solver; that the steps chain correctly on every network and budget is not tested.",
    ["optimization/topology_optimization.py"],
    [("optimize_topology", "optimization/topology_optimization.py"), ("_run_max_coverage_step", "optimization/topology_optimization.py")])

if __name__ == "__main__":
    for p in P:
        print(json.dumps(p))
