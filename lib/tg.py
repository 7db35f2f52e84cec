"""Generators of planner objects shared by the checks."""
import math

from terragraph_planner.common.configuration.configs import (
    DeviceData, OptimizerParams, SectorParams,
)
from terragraph_planner.common.configuration.enums import (
    DeviceType, LinkType, LocationType, PolarityType, SectorType, SiteType,
    StatusType,
)
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology

CN, DN, POP = SiteType.CN, SiteType.DN, SiteType.POP
PROPOSED, EXISTING, CANDIDATE, UNAVAILABLE, UNREACHABLE = (
    StatusType.PROPOSED, StatusType.EXISTING, StatusType.CANDIDATE,
    StatusType.UNAVAILABLE, StatusType.UNREACHABLE,
)
ALL_STATUS = list(StatusType)
ACTIVE = {PROPOSED, EXISTING}
EPSG = 32631

# metres per degree on the sphere the planner uses
M_PER_DEG = 6371000.0 * math.pi / 180


class NamedSite(Site):
    """A site whose id is chosen by the harness."""

    def __init__(self, sid, *a, **k):
        super().__init__(*a, **k)
        self._sid = sid

    @property
    def site_id(self):
        return self._sid


def dn_device(sku="DN_DEV", nodes=4, sectors=1, scan=70.0, capex=250.0, **sp):
    return DeviceData(
        device_sku=sku,
        sector_params=SectorParams(
            number_sectors_per_node=sectors, horizontal_scan_range=scan, **sp),
        node_capex=capex, number_of_nodes_per_site=nodes,
        device_type=DeviceType.DN)


def cn_device(sku="CN_DEV", capex=150.0, scan=70.0, **sp):
    return DeviceData(
        device_sku=sku,
        sector_params=SectorParams(horizontal_scan_range=scan, **sp),
        node_capex=capex, number_of_nodes_per_site=1,
        device_type=DeviceType.CN)


def make_site(stype, x, y, device, status=CANDIDATE, alt=0.0, sid=None,
              name="", loc=LocationType.UNKNOWN, building=None, subs=None,
              epsg=EPSG):
    gl = GeoLocation(utm_x=x, utm_y=y, utm_epsg=epsg, altitude=alt)
    if sid is None:
        return Site(stype, gl, device, status, loc, building, name, subs)
    return NamedSite(sid, stype, gl, device, status, loc, building, name, subs)


def make_site_ll(stype, lat, lon, device, status=CANDIDATE, alt=0.0, sid=None,
                 name="", loc=LocationType.UNKNOWN, building=None, subs=None):
    gl = GeoLocation(latitude=lat, longitude=lon, altitude=alt)
    if sid is None:
        return Site(stype, gl, device, status, loc, building, name, subs)
    return NamedSite(sid, stype, gl, device, status, loc, building, name, subs)


def sector_status_for(site_status, rng):
    if site_status in ACTIVE:
        return rng.choice([CANDIDATE, PROPOSED, EXISTING])
    return site_status


def link_status_ok(tx, rx, st):
    """The documented status rules between a link and its two end sites."""
    ends = (tx, rx)
    if st == EXISTING and ends != (EXISTING, EXISTING):
        return False
    if UNAVAILABLE in ends and st != UNAVAILABLE:
        return False
    if UNREACHABLE in ends and st not in (UNREACHABLE, UNAVAILABLE):
        return False
    if CANDIDATE in ends and st in ACTIVE:
        return False
    return True


def sector_status_ok(site, st):
    if site in ACTIVE:
        return st in (CANDIDATE, PROPOSED, EXISTING)
    return st == site


def site_change_ok(old, new):
    return old not in (EXISTING, UNAVAILABLE) and \
        new not in (EXISTING, UNAVAILABLE)


def bearing(lat1, lon1, lat2, lon2):
    """Independent great-circle initial bearing, degrees in [0, 360)."""
    p1, p2 = math.radians(lat1), math.radians(lat2)
    dl = math.radians(lon2 - lon1)
    v1 = (math.cos(p1) * math.cos(math.radians(lon1)),
          math.cos(p1) * math.sin(math.radians(lon1)), math.sin(p1))
    v2 = (math.cos(p2) * math.cos(math.radians(lon2)),
          math.cos(p2) * math.sin(math.radians(lon2)), math.sin(p2))
    east = (-math.sin(math.radians(lon1)), math.cos(math.radians(lon1)), 0.0)
    north = (-math.sin(p1) * math.cos(math.radians(lon1)),
             -math.sin(p1) * math.sin(math.radians(lon1)), math.cos(p1))
    e = sum(a * b for a, b in zip(v2, east))
    n = sum(a * b for a, b in zip(v2, north))
    del v1, dl
    return math.degrees(math.atan2(e, n)) % 360.0


def sphere_distance(lat1, lon1, lat2, lon2, radius=6371000.0):
    """Great-circle distance from chord length of unit vectors."""
    def vec(lat, lon):
        p, q = math.radians(lat), math.radians(lon)
        return (math.cos(p) * math.cos(q), math.cos(p) * math.sin(q),
                math.sin(p))
    a, b = vec(lat1, lon1), vec(lat2, lon2)
    chord = math.sqrt(sum((i - j) ** 2 for i, j in zip(a, b)))
    return radius * 2 * math.asin(min(1.0, chord / 2))


def circ_diff(a, b):
    """Unsigned angle between two directions, degrees in [0, 180]."""
    d = abs(a - b) % 360.0
    return 360.0 - d if d > 180.0 else d
