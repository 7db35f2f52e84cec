"""Synthetic GIS inputs and independent geometry used as oracle."""
import math
import zipfile
from xml.sax.saxutils import escape, quoteattr

import numpy as np
from osgeo import gdal, osr

from terragraph_planner.common.structs import UTMBoundingBox
from terragraph_planner.los.elevation import Elevation

osr.DontUseExceptions()
NODATA = -32768.0


def srs(epsg):
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    return s


def elevation(matrix, left, top, res, epsg=32631, res_y=None):
    """An Elevation whose cell (0, 0) is centred at (left, top)."""
    m = np.asarray(matrix, dtype=np.float32)
    ry = res_y or res
    h, w = m.shape
    box = UTMBoundingBox(
        max_utm_x=math.ceil(left + (w - 1) * res),
        max_utm_y=math.ceil(top),
        min_utm_x=math.floor(left),
        min_utm_y=math.floor(top - (h - 1) * ry),
    )
    return Elevation(m, box, res, ry, left, top, srs(epsg), None)


def write_geotiff(path, matrix, left_edge, top_edge, res, epsg,
                  nodata=NODATA, date=None, res_y=None, unit_wkt=None):
    m = np.asarray(matrix, dtype=np.float32)
    ds = gdal.GetDriverByName("GTiff").Create(
        path, m.shape[1], m.shape[0], 1, gdal.GDT_Float32)
    ds.SetGeoTransform((left_edge, res, 0.0, top_edge, 0.0, -(res_y or res)))
    ds.SetProjection(unit_wkt or srs(epsg).ExportToWkt())
    if date:
        ds.SetMetadataItem("TIFFTAG_DATETIME", date)
    b = ds.GetRasterBand(1)
    if nodata is not None:
        b.SetNoDataValue(nodata)
    b.WriteArray(m)
    ds.FlushCache()
    ds = None


def inside(poly, x, y):
    """Ray casting; poly is a list of (x, y)."""
    r = False
    n = len(poly)
    for i in range(n):
        x1, y1 = poly[i]
        x2, y2 = poly[(i + 1) % n]
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            r = not r
    return r


def seg_dist(px, py, ax, ay, bx, by):
    dx, dy = bx - ax, by - ay
    L = dx * dx + dy * dy
    t = 0.0 if L == 0 else max(0.0, min(1.0, (
        (px - ax) * dx + (py - ay) * dy) / L))
    return math.hypot(px - ax - t * dx, py - ay - t * dy)


def edge_dist(poly, x, y):
    n = len(poly)
    return min(seg_dist(x, y, *poly[i], *poly[(i + 1) % n]) for i in range(n))


def star(rng, cx, cy, rmin, rmax, n=None):
    """A simple star-shaped polygon, possibly concave."""
    n = n or rng.randint(4, 9)
    a0 = rng.uniform(0, 2 * math.pi)
    out = []
    for i in range(n):
        a = a0 + 2 * math.pi * (i + rng.uniform(-.3, .3)) / n
        r = rng.uniform(rmin, rmax)
        out.append((cx + r * math.cos(a), cy + r * math.sin(a)))
    return out


KML_HEAD = ('<?xml version="1.0" encoding="UTF-8"?>\n'
            '<kml xmlns="http://www.opengis.net/kml/2.2"><Document>'
            '<name>doc</name>')
KML_TAIL = "</Document></kml>"


def kml_data(fields):
    if not fields:
        return ""
    return "<ExtendedData>" + "".join(
        f"<Data name={quoteattr(str(k))}><value>{escape(str(v))}</value>"
        "</Data>" for k, v in fields.items()) + "</ExtendedData>"


def kml_point(name, lat, lon, alt=None, mode=None, fields=None):
    nm = f"<name>{escape(name)}</name>" if name is not None else ""
    md = f"<altitudeMode>{mode}</altitudeMode>" if mode else ""
    z = "" if alt is None else f",{alt!r}"
    return (f"<Placemark>{nm}{kml_data(fields)}<Point>{md}<coordinates>"
            f"{lon!r},{lat!r}{z}</coordinates></Point></Placemark>")


def kml_line(name, pts, fields=None):
    nm = f"<name>{escape(name)}</name>" if name is not None else ""
    c = " ".join(",".join(repr(float(v)) for v in p) for p in pts)
    return (f"<Placemark>{nm}{kml_data(fields)}<LineString><coordinates>{c}"
            "</coordinates></LineString></Placemark>")


def kml_polygon(name, ring, fields=None):
    c = " ".join(f"{x!r},{y!r},0" for x, y in list(ring) + [ring[0]])
    return (f"<Placemark><name>{escape(name)}</name>{kml_data(fields)}<Polygon>"
            f"<outerBoundaryIs><LinearRing><coordinates>{c}</coordinates>"
            "</LinearRing></outerBoundaryIs></Polygon></Placemark>")


def kml_shape(rings):
    """A polygon whose further rings are courtyards."""
    def ring(r):
        c = " ".join(f"{a!r},{b!r},0" for a, b in list(r) + [r[0]])
        return f"<LinearRing><coordinates>{c}</coordinates></LinearRing>"
    inner = "".join(f"<innerBoundaryIs>{ring(r)}</innerBoundaryIs>"
                    for r in rings[1:])
    return (f"<Polygon><outerBoundaryIs>{ring(rings[0])}</outerBoundaryIs>"
            f"{inner}</Polygon>")


def kml_shapes(rng, name, shapes):
    """Placemarks for the shapes, some of them several together."""
    out, left = [], list(shapes)
    while left:
        n = rng.choice([1, 1, 1, 1, 2, 3])
        some, left = left[:n], left[n:]
        body = "".join(map(kml_shape, some))
        if len(some) > 1 or rng.random() < .1:
            body = f"<MultiGeometry>{body}</MultiGeometry>"
        out.append(f"<Placemark><name>{name}{len(left)}</name>{body}"
                   "</Placemark>")
    return "".join(out)


def kml_folder(name, body):
    return f"<Folder><name>{escape(name)}</name>{body}</Folder>"


def write_kml(path, body):
    text = KML_HEAD + body + KML_TAIL
    if path.casefold().endswith(".kmz"):
        with zipfile.ZipFile(path, "w") as z:
            z.writestr("doc.kml", text)
    else:
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
