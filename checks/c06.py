"""C06 topology files: written, parsed independently and read back."""
import csv
import os
import xml.etree.ElementTree as ET
import zipfile

import gis
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.configuration.enums import (
    DebugFile, OutputFile,
)
from terragraph_planner.common.data_io.topology_serializer import (
    dump_topology_to_kml, write_to_kml_file,
)
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.utils import current_system_params

check = Check(
    "C06",
    rule="random topologies (types, statuses, names with markup, colocated "
         "and far apart sites, wired and one-way links, demand sites) written "
         "as KML, parsed by an independent XML reader and read back as KML "
         "and KMZ; random hand-written KML and zipped CSV topologies with "
         "links by name and by end point; non-trivial = distinct (kind, "
         "numbers of sites, links, demands, statuses)",
    assumptions=["sites that are not at one position are more than 60 m apart",
                 "the two directions of a link have the same status, as a "
                 "KML link stands for both"],
)
NS = "{http://www.opengis.net/kml/2.2}"
FEW = ["a", "B b", "<x>", "é&", "p\"q'", "]]>", "ПОП", "x,y", "DN", "Sites",
       "EXISTING", "#1", "007", "N/A"]


def positions(rng, n):
    """n positions more than 60 m from each other, one UTM zone."""
    zone = rng.choice([32601, 32631, 32660, 32717, 32760])
    lat = rng.uniform(1, 60) * (1 if zone < 32700 else -1)
    lon = (zone % 100) * 6 - 183 + rng.uniform(-2.5, 2.5)
    g = GeoLocation(latitude=lat, longitude=lon)
    cells = rng.sample([(i, j) for i in range(12) for j in range(12)], n)
    out = []
    for i, j in cells:
        q = GeoLocation(utm_x=g.utm_x + i * 100 + rng.uniform(0, 40),
                        utm_y=g.utm_y + j * 100 + rng.uniform(0, 40),
                        utm_epsg=g.utm_epsg)
        out.append((q.latitude, q.longitude))
    return out


def gen_sites(rng, devices, all_alt):
    n = rng.randint(2, 9)
    pos = positions(rng, n)
    sites, names = [], set()
    for k in range(n):
        for _ in range(1 if rng.random() < .8 else 2):
            st = rng.choice([CN, DN, DN, POP])
            dv = rng.choice([d for d in devices if (
                d.device_type == DeviceType.CN) == (st == CN)])
            loc = rng.choice(list(LocationType))
            alt = rng.choice([0.0, round(rng.uniform(-20, 900), 1),
                              round(rng.uniform(-20, 900), 7)]) \
                if all_alt else None
            nm = rng.choice(FEW) + str(k) + rng.choice(["", rng.choice(FEW)])
            if nm in names:
                continue
            names.add(nm)
            s = make_site_ll(
                st, pos[k][0], pos[k][1], dv, rng.choice(ALL_STATUS), alt,
                name=nm, loc=loc,
                building=rng.choice([-1, 3]) if loc == LocationType.ROOFTOP
                else None,
                subs=rng.randint(1, 5) if st == CN and rng.random() < .5
                else None)
            if s.site_id in {x.site_id for x in sites}:
                continue
            sites.append(s)
    return sites, pos


def apart(a, b):
    return (a.latitude, a.longitude) != (b.latitude, b.longitude)


def gen_topology(rng):
    devices = [dn_device("Dn1"), dn_device("dn 2"), cn_device("cN")]
    sites, _ = gen_sites(rng, devices, rng.random() < .7)
    t = Topology(sites=sites)
    t.name = rng.choice([None, "net", "A & <B>"])
    for i, a in enumerate(sites):
        for b in sites[i + 1:]:
            if rng.random() < .5:
                continue
            wired = rng.random() < .2
            if not apart(a, b):
                continue
            if a.site_type == CN and b.site_type == CN:
                continue
            ok = [s for s in ALL_STATUS if link_status_ok(
                a.status_type, b.status_type, s)]
            if not ok:
                continue
            st = rng.choice(ok)
            two = rng.random() < .8
            conf = rng.choice([None, 1.0, rng.random()])
            pairs = [(a, b), (b, a)]
            rng.shuffle(pairs)
            for x, y in pairs[:2 if two else 1]:
                if x.site_type == CN:
                    continue
                lk = Link(tx_site=x, rx_site=y, status_type=st,
                          is_wireless=not wired, confidence_level=conf)
                t.add_link(lk)
                if not wired and rng.random() < .5:
                    lk.proposed_flow = rng.uniform(0, 2)
    for k in range(rng.choice([0, 0, 1, 4])):
        t.add_demand_site(DemandSite(
            GeoLocation(latitude=rng.uniform(-80, 80),
                        longitude=rng.uniform(-179, 179)),
            demand=rng.choice([None, 0, .5, .7, 2.0, rng.random()]),
            connected_sites=[s for s in sites if rng.random() < .3]))
    return t, devices


def dress(rng, t):
    """Gives a topology the sectors and results of a finished plan."""
    by_site = {}
    for s in t.sites.values():
        s.polarity = rng.choice(list(PolarityType))
        if rng.random() < .6:
            st = rng.choice([CANDIDATE, s.status_type]) \
                if s.status_type in ACTIVE else s.status_type
            x = Sector(s, rng.randrange(3), 0, rng.uniform(0, 360), st,
                       rng.choice([-1, 0, 0, 1]))
            t.add_sector(x)
            by_site[s.site_id] = x
    for k in t.links.values():
        a, b = by_site.get(k.tx_site.site_id), by_site.get(k.rx_site.site_id)
        if a and b and k.is_wireless and rng.random() < .7:
            b.channel = a.channel
        if a and b and k.is_wireless and a.channel == b.channel:
            k.tx_sector, k.rx_sector = a, b
    for k in t.links.values():
        if k.tx_sector and k.tx_sector.channel != k.rx_sector.channel:
            k.clear_sectors()
        if rng.random() < .7:
            k.utilization = rng.choice(
                [0, 45.5, 79.5, 81, 100] if k.status_type in ACTIVE else [0])
            k.mcs_level = rng.randint(0, 12)
            k.capacity = rng.uniform(0, 2)
            k.tx_power = rng.uniform(-5, 40)
            k.rsl_dbm, k.snr_dbm, k.sinr_dbm = (
                rng.uniform(-90, 30) for _ in range(3))


def printed(ctx, d, name, v, tag):
    """A number as written, to one digit."""
    x = d.get(name)
    if v is None:
        ctx.check_that(x == "N/A", tag, lambda: (name, x))
    else:
        ctx.check_that(x not in (None, "N/A") and (
            float(x) == v or abs(float(x) - v) < .0501), tag,
            lambda: (name, x, v))


def placemarks(path):
    """[(folder path, placemark element)]; the reader of record."""
    out = []

    def walk(el, names):
        for c in el:
            if c.tag == NS + "Folder":
                walk(c, names + [c.findtext(NS + "name")])
            elif c.tag == NS + "Placemark":
                out.append((names, c))
            elif c.tag == NS + "Document":
                walk(c, names)
    root = ET.parse(path).getroot()
    walk(root, [])
    return root, out


def data_of(p):
    return {d.get("name"): d.findtext(NS + "value")
            for d in p.iter(NS + "Data")}


def coords(p, kind):
    txt = p.find(NS + kind).findtext(NS + "coordinates").split()
    return [tuple(x.split(",")) for x in txt]


def check_file(ctx, t, path):
    try:
        root, pms = placemarks(path)
    except ET.ParseError as e:
        ctx.violate("not-well-formed", str(e))
        return
    doc = root.find(NS + "Document")
    ctx.check_that(doc.findtext(NS + "name") == (t.name or "topology"),
                   "document-name", doc.findtext(NS + "name"))
    styles = {e.get("id") for e in root.iter(NS + "Style")}
    sites = {s.name: s for s in t.sites.values()}
    seen = []
    links = {(k.tx_site.name, k.rx_site.name): k for k in t.links.values()}
    seen_links, demand_pts, conns = [], [], []
    for names, p in pms:
        nm = p.findtext(NS + "name")
        if names[0] == "Demand":
            if names[1] == "Demand Sites":
                x = coords(p, "Point")[0]
                v = [q.text for q in p.iter(NS + "SimpleData")
                     if q.get("name") == "site_demand"]
                demand_pts.append((float(x[1]), float(x[0]), float(v[0])
                                   if v[0] not in ("", "None", None) else -1))
            else:
                conns.append(nm)
            continue
        if names[1].endswith(" Sites"):
            s = sites.get(nm)
            if not ctx.check_that(s is not None, "site-unknown-name", nm):
                continue
            seen.append(nm)
            d = data_of(p)
            ctx.check_that(
                names == [s.status_type.name, f"{s.site_type.name} Sites"],
                "site-layer", (names, nm, s.status_type, s.site_type))
            x = coords(p, "Point")[0]
            ctx.check_that(
                (float(x[1]), float(x[0])) == (s.latitude, s.longitude),
                "site-coordinates", (x, s.latitude, s.longitude))
            if s.altitude is not None:
                ctx.close(float(x[2]), s.altitude, "site-altitude-written")
            mode = p.find(NS + "Point").findtext(NS + "altitudeMode")
            ctx.check_that(
                mode == ("clampToGround" if s.altitude is None
                         else "absolute"), "altitude-mode", mode)
            want = {"Site Type": s.site_type.name,
                    "Status": s.status_type.name,
                    "Location Type": s.location_type.name,
                    "Device SKU": s.device.device_sku,
                    "Number of Subscribers": str(s.number_of_subscribers),
                    "Polarity": s.polarity.name,
                    "Site Geohash": s.site_hash}
            for k, v in want.items():
                ctx.check_that(d.get(k) == v, "site-field-written",
                               lambda: (k, d.get(k), v))
        else:
            d = data_of(p)
            key = (d.get("Tx Site Name"), d.get("Rx Site Name"))
            k = links.get(key)
            if not ctx.check_that(k is not None, "link-unknown", key):
                continue
            seen_links.append(key)
            ctx.check_that(
                names == [k.status_type.name, f"{k.link_type.name} Links"],
                "link-layer", (names, key, k.status_type, k.link_type))
            xs = coords(p, "LineString")
            ctx.check_that(
                [(float(x[1]), float(x[0])) for x in xs] ==
                [(k.tx_site.latitude, k.tx_site.longitude),
                 (k.rx_site.latitude, k.rx_site.longitude)],
                "link-coordinates", (xs, key))
            want = {"Link Type": k.link_type.name,
                    "Status": k.status_type.name}
            for f, v in want.items():
                ctx.check_that(d.get(f) == v, "link-field-written",
                               lambda: (f, d.get(f), v))
            ctx.close(float(d["Distance"]), k.distance, "link-distance",
                      abs_tol=.051)
            ctx.close(float(d["Data Flow (Gbps)"]), k.proposed_flow,
                      "link-flow", abs_tol=.0051)
            ctx.close(float(d["Throughput (Gbps)"]), k.capacity,
                      "link-capacity", abs_tol=.0051)
            printed(ctx, d, "Utilization", k.utilization, "link-utilization")
            rf = {"Tx Beam Azimuth": k.tx_beam_azimuth,
                  "Rx Beam Azimuth": k.rx_beam_azimuth,
                  "Deviation from Tx Boresight": k.tx_dev,
                  "Deviation from Rx Boresight": k.rx_dev,
                  "Deviation from El Boresight": k.el_dev,
                  "Tx Power (dBm)": k.tx_power,
                  "Estimated MCS": k.mcs_level,
                  "Estimated SNR (dB)": k.snr_dbm,
                  "Estimated SINR (dB)": k.sinr_dbm,
                  "Estimated RSL": k.rsl_dbm}
            for f, v in rf.items():
                if k.is_wireless:
                    printed(ctx, d, f, v, "link-rf-written")
                else:
                    ctx.check_that(f not in d, "wired-link-rf", f)
            ch = -1
            if k.status_type in ACTIVE and k.tx_sector is not None:
                ch = k.tx_sector.channel
            ctx.check_that(d["Channel"] == (
                "UNASSIGNED" if ch < 0 else str(ch)), "link-channel",
                lambda: (d["Channel"], ch))
            back = links.get(key[::-1])
            hot = k.is_wireless and max(
                k.utilization, back.utilization if back else 0) > 80
            ctx.check_that(p.findtext(NS + "styleUrl").endswith(
                "_high_util") == hot, "link-highlight", lambda: (
                    k.utilization, back and back.utilization))
            if k.confidence_level is None:
                ctx.check_that(d["Confidence Level"] == "N/A",
                               "link-confidence", d)
            else:
                ctx.close(float(d["Confidence Level"]), k.confidence_level,
                          "link-confidence", abs_tol=.051)
    ctx.check_that(sorted(seen) == sorted(sites), "sites-once-each",
                   lambda: (sorted(seen), sorted(sites)))
    ctx.check_that(sorted(seen_links) == sorted(links), "links-once-each",
                   lambda: (sorted(seen_links), sorted(links)))
    ctx.check_that(
        sorted(demand_pts) == sorted(
            (d.latitude, d.longitude, -1 if d.demand is None else d.demand)
            for d in t.demand_sites.values()), "demands-once-each", demand_pts)
    want = sorted(f"link_{s.site_id}_{d.demand_id}"
                  for d in t.demand_sites.values() for s in d.connected_sites
                  if s.status_type in ACTIVE)
    ctx.check_that(sorted(conns) == want, "connections-once-each",
                   lambda: (sorted(conns), want))
    for names, p in pms:
        u = p.findtext(NS + "styleUrl")
        ctx.check_that(u[1:] in styles or u == "#POP_UNREACHABLE",
                       "dangling-style", u)


def compare_topologies(ctx, got, want, conf_tol, tag):
    g = {s.name: s for s in got.sites.values()}
    w = {s.name: s for s in want.sites.values()}
    ctx.check_that(sorted(g) == sorted(w), f"{tag}-sites",
                   lambda: (sorted(g), sorted(w)))
    for nm in set(g) & set(w):
        a, b = g[nm], w[nm]
        ctx.check_that(
            (a.site_type, a.status_type, a.location_type,
             a.device.device_sku, a.number_of_subscribers, a.latitude,
             a.longitude, a.altitude, a.site_id) ==
            (b.site_type, b.status_type, b.location_type,
             b.device.device_sku, b.number_of_subscribers, b.latitude,
             b.longitude, b.altitude, b.site_id), f"{tag}-site-changed",
            lambda: (nm, a.site_type, b.site_type, a.status_type,
                     b.status_type, a.location_type, b.location_type,
                     a.device.device_sku, b.device.device_sku,
                     a.number_of_subscribers, b.number_of_subscribers,
                     a.latitude, b.latitude, a.altitude, b.altitude))
    gl = {(k.tx_site.name, k.rx_site.name): k for k in got.links.values()}
    ctx.check_that(len(gl) == len(got.links), f"{tag}-link-twice", "")
    wl = {}
    for k in want.links.values():
        if not k.is_wireless:
            continue
        for x, y in ((k.tx_site, k.rx_site), (k.rx_site, k.tx_site)):
            if x.site_type != CN:
                wl[(x.name, y.name)] = k
    ctx.check_that(set(gl) == set(wl), f"{tag}-links",
                   lambda: (sorted(set(gl) ^ set(wl))))
    for key in set(gl) & set(wl):
        a, b = gl[key], wl[key]
        ctx.check_that(
            (a.status_type, a.link_type, a.tx_sector) ==
            (b.status_type, b.link_type, None), f"{tag}-link-changed",
            lambda: (key, a.status_type, b.status_type, a.link_type))
        ctx.close(a.confidence_level, b.confidence_level,
                  f"{tag}-confidence", key, abs_tol=conf_tol)
    gd = sorted((d.latitude, d.longitude) for d in got.demand_sites.values())
    wd = sorted((d.latitude, d.longitude) for d in want.demand_sites.values())
    ctx.check_that(gd == wd, f"{tag}-demands", lambda: (gd, wd))


@check.part(quick=900, thorough=12000, share=3,
            need={"sites": 800, "links": 800, "demands": 100})
def roundtrip(ctx, rng):
    t, devices = gen_topology(rng)
    if rng.random() < .6:
        dress(rng, t)
    path = os.path.join(ctx.scratch, "t.kml")
    before = (len(t.sites), len(t.links), len(t.demand_sites))
    write_to_kml_file(t, path)
    ctx.check_that(before == (len(t.sites), len(t.links),
                              len(t.demand_sites)), "writing-changed", before)
    check_file(ctx, t, path)
    if rng.random() < .4:
        z = os.path.join(ctx.scratch, rng.choice(["t.kmz", "u.KMZ"]))
        with zipfile.ZipFile(z, "w") as f:
            f.writestr("files/readme.txt", "x")
            f.write(path, rng.choice(["doc.kml", "a/b.KML"]))
        path = z
    got = extract_topology_from_file(path, devices, None)
    compare_topologies(ctx, got, t, .051, "read")
    p2 = os.path.join(ctx.scratch, rng.choice(["t2.kml", "t2.KML"]))
    write_to_kml_file(got, p2)
    check_file(ctx, got, p2)
    again = extract_topology_from_file(p2, devices, None)
    compare_topologies(ctx, again, got, 1e-9, "reread")
    ctx.count("sites", len(t.sites))
    ctx.count("links", len(t.links))
    ctx.count("demands", len(t.demand_sites))
    ctx.nontrivial(before, sorted(s.status_type.name
                                  for s in t.sites.values()))
    ctx.sample({"sites": before[0], "links": before[1],
                "demand_sites": before[2]})


def gen_plain(rng):
    """Candidate sites and wanted links (by index, unordered)."""
    devices = [dn_device("Dn1"), cn_device("cN")]
    n = rng.randint(2, 8)
    pos = positions(rng, n)
    rows = []
    for k in range(n):
        types = rng.sample([CN, DN, POP], rng.choice([1, 1, 1, 2, 2, 3]))
        for st in types:
            rows.append((k, st, f"{rng.choice(FEW)}{k}{st.name}"))
    return devices, pos, rows


@check.part(quick=900, thorough=12000, share=2,
            need={"by_name": 100, "by_position": 100, "refused": 40})
def kml_links(ctx, rng):
    """Hand-written KML: links by names or by end points."""
    devices, pos, rows = gen_plain(rng)
    with_status = rng.random() < .5
    at = {}
    for r in rows:
        at.setdefault(r[0], []).append(r)
    body = ""
    status = {r[2]: rng.choice([CANDIDATE, EXISTING, PROPOSED])
              if with_status else CANDIDATE for r in rows}
    for status_type in (EXISTING, PROPOSED, CANDIDATE):
        inner = ""
        for st in (CN, DN, POP):
            b = "".join(gis.kml_point(nm, *pos[k], None, None, {})
                        for k, s, nm in rows if s == st and
                        status[nm] == status_type)
            if b:
                inner += gis.kml_folder(f"{st.name}s", b)
        body += gis.kml_folder(status_type.name, inner) if with_status \
            else inner
    want, lines, wires, dropped = {}, "", "", 0
    fault = rng.choice([None] * 6 + ["far", "name", "half", "conflict"])
    tx_f = rng.choice(["tx_site", "TX_SITE_NAME", "from_site_id", "Tx Site"])
    rx_f = rng.choice(["rx_site", "RX_SITE_NAME", "to_site_id", "to_site"])
    if tx_f == "Tx Site":
        rx_f = "Rx Site"
    folder = rng.choice(["WIRELESS_BACKHAUL", "wireless_access links"])
    names_only = rng.random() < .5
    pairs = []

    def near(k):
        d = 8 / M_PER_DEG
        return (pos[k][0] + rng.uniform(-.6, .6) * d,
                pos[k][1] + rng.uniform(-.6, .6) * d)

    def add(x, y, conf):
        for p, q in ((x, y), (y, x)):
            if p[1] != CN:
                want.setdefault((p[2], q[2]), conf)

    for _ in range(rng.randint(1, 8)):
        a, b = rng.sample(range(len(pos)), 2)
        conf = rng.choice([None, .5, 1.0, 0.25])
        f = {} if conf is None else {"confidence_level": conf}
        p, q = near(a), near(b)
        wired = rng.random() < .15
        if wired:
            f["link_type"] = rng.choice(["ETHERNET", "ethernet"])
        in_folder = wired and rng.random() < .5
        if in_folder:
            del f["link_type"]
        sa, sb = at[a], at[b]
        if names_only or rng.random() < .4:
            x, y = rng.choice(sa), rng.choice(sb)
            if not wired and x[1] == CN and y[1] == CN:
                continue
            f[tx_f], f[rx_f] = x[2], y[2]
            if rng.random() < .5:  # the names decide, not the coordinates
                p, q = near(b), near(a)
            sa, sb = [x], [y]
            ctx.count("by_name")
        else:
            if any(x[1] == CN and y[1] == CN for x in sa for y in sb):
                continue
            ctx.count("by_position")
            if rng.random() < .2:  # one name is not enough
                f[tx_f] = rng.choice(rows)[2]
        line = gis.kml_line("l", [(p[1], p[0], 0), (q[1], q[0], 0)], f)
        if in_folder:
            wires += line
        else:
            lines += line
        pairs.append((sa, sb, conf, wired))
    # the type of a link is that of its data field, else of its folder
    for sa, sb, conf, wired in pairs:
        if wired:
            dropped += 1
            continue
        for x in sa:
            for y in sb:
                add(x, y, conf)
    if not lines:
        raise_skip()
    if fault == "far":
        lines += gis.kml_line("l", [
            (pos[0][1], pos[0][0], 0),
            (pos[1][1] + rng.uniform(10.5, 25) / M_PER_DEG / math.cos(
                math.radians(pos[1][0])), pos[1][0], 0)], {})
    elif fault == "name":
        lines += gis.kml_line("l", [
            (pos[0][1], pos[0][0], 0), (pos[1][1], pos[1][0], 0)],
            {tx_f: rows[0][2], rx_f: "nobody"})
    inner = gis.kml_folder(rng.choice(["ETHERNET", "Ethernet links"]),
                           wires) if wires else ""
    inner += gis.kml_folder(folder, lines)
    body += gis.kml_folder("CANDIDATE", inner) if with_status else inner
    if fault == "conflict":
        if not want:
            raise_skip()
        k = next(iter(want))
        by = {r[2]: r for r in rows}
        p, q = pos[by[k[0]][0]], pos[by[k[1]][0]]
        body += gis.kml_folder("UNAVAILABLE", gis.kml_folder(
            folder, gis.kml_line("l", [(p[1], p[0], 0), (q[1], q[0], 0)],
                                 {tx_f: k[0], rx_f: k[1]})))
    path = os.path.join(ctx.scratch, rng.choice(["a.kml", "a.kmz"]))
    gis.write_kml(path, body)

    def go():
        return extract_topology_from_file(path, devices, None)

    if fault in ("far", "name", "conflict"):
        ctx.expect_raises(PlannerException, go, f"accepted-{fault}", fault)
        ctx.count("refused")
        ctx.nontrivial(fault, len(rows))
        return
    t = go()
    ctx.check_that(sorted(s.name for s in t.sites.values()) ==
                   sorted(r[2] for r in rows), "kml-sites",
                   lambda: sorted(s.name for s in t.sites.values()))
    ctx.check_that(all(s.status_type == status.get(s.name)
                       for s in t.sites.values()), "kml-site-status",
                   lambda: [(s.name, s.status_type) for s in t.sites.values()])
    got = {(k.tx_site.name, k.rx_site.name): k.confidence_level
           for k in t.links.values()}
    ctx.check_that(got == want, "kml-links",
                   lambda: (got, want))
    ctx.check_that(all(k.is_wireless and k.status_type == CANDIDATE
                       for k in t.links.values()), "kml-link-type", "")
    ctx.nontrivial("kml", len(rows), len(want), dropped)


def raise_skip():
    from vmon import Skip
    raise Skip("nothing to test")


@check.part(quick=600, thorough=10000, need={"read": 100, "refused": 40})
def zipped_csv(ctx, rng):
    devices, pos, rows = gen_plain(rng)
    mode = rng.choice(["pair", "12", "txrx"])
    fault = rng.choice([None] * 5 + ["name", "dup", "missing-file",
                                     "missing-column", "arrow", "link-column"])
    S = [[rng.choice(["name", "Site_Name", "pole_name"]), "Type", "Lat",
          "longitude"]]
    for k, st, nm in rows:
        S.append([nm, st.name.lower(), *pos[k]])
    pairs, want = set(), set()
    for _ in range(rng.randint(1, 9)):
        x, y = rng.sample(rows, 2)
        if x[0] == y[0] or x[1] == y[1] == CN:
            continue
        if (x[2], y[2]) in pairs or (mode == "12" and (y[2], x[2]) in pairs):
            continue
        pairs.add((x[2], y[2]))
        for p, q in ((x, y), (y, x)):
            if p[1] != CN:
                want.add((p[2], q[2]))
    if not pairs:
        raise_skip()
    order = sorted(pairs)
    rng.shuffle(order)
    if fault == "name":
        order.append((rows[0][2], "nobody"))
    if fault == "dup":
        order.append(order[0] if mode != "12" or rng.random() < .5
                     else order[0][::-1])
    if mode == "pair":
        L = [[rng.choice(["site_pair", "Sites"])]]
        L += [[f"{a}{rng.choice(['', ' '])}-->{rng.choice(['', ' '])}{b}"]
              for a, b in order]
        if fault == "arrow":
            L[-1][0] = L[-1][0].replace("-->", "->")
    elif mode == "12":
        n = rng.choice([["site1", "site2"], ["Site1_ID", "site2_name"]])
        L = [n] + [list(p) for p in order]
    else:
        n = rng.choice([["tx_site", "rx_site"], ["From_Site", "to_site_id"]])
        L = [n] + [list(p) for p in order]
        if rng.random() < .5:
            L = [r[::-1] for r in L]
    if fault == "arrow" and mode != "pair":
        fault = None
    if fault == "missing-column":
        c = rng.randrange(4)
        S = [r[:c] + r[c + 1:] for r in S]
    if fault == "link-column":
        L = [["nothing"] + r[1:] for r in L[:1]] + L[1:]
    path = os.path.join(ctx.scratch, "t.zip")
    with zipfile.ZipFile(path, "w") as z:
        for nm, data in (("sites.csv", S), ("links.csv", L)):
            if fault == "missing-file" and nm == "links.csv":
                nm = "sub/links.csv"
            p = os.path.join(ctx.scratch, "x.csv")
            with open(p, "w", newline="", encoding="utf-8") as f:
                csv.writer(f).writerows(data)
            z.write(p, nm)
    left = set(os.listdir(os.environ["TMPDIR"]))

    def go():
        return extract_topology_from_file(path, devices, None)

    if fault:
        ctx.expect_raises(PlannerException, go, f"csv-accepted-{fault}", mode)
        ctx.count("refused")
        ctx.nontrivial(fault, mode)
        return
    t = go()
    del left
    got = {(k.tx_site.name, k.rx_site.name) for k in t.links.values()}
    ctx.check_that(got == want, "csv-links", lambda: (mode, got, want))
    by = {s.name: s for s in t.sites.values()}
    ctx.check_that(sorted(by) == sorted(r[2] for r in rows) and
                   len(by) == len(t.sites), "csv-sites", lambda: sorted(by))
    for k, st, nm in rows:
        if nm in by:
            s = by[nm]
            ctx.check_that(
                s.site_type == st and s.status_type == CANDIDATE and
                abs(s.latitude - pos[k][0]) < 1e-9 and
                abs(s.longitude - pos[k][1]) < 1e-9, "csv-site",
                lambda: (nm, s.site_type, s.latitude, s.longitude, pos[k]))
    ctx.check_that(all(k.status_type == CANDIDATE and k.is_wireless and
                       k.confidence_level is None
                       for k in t.links.values()), "csv-link-state", "")
    ctx.count("read")
    ctx.nontrivial("csv", mode, len(rows), len(want))


@check.part(quick=12, thorough=40)
def dumps(ctx, rng):
    """Output files always, debug files in debug mode only."""
    t, _ = gen_topology(rng)
    debug = rng.random() < .5
    old = (current_system_params.debug_mode, current_system_params.output_dir)
    current_system_params.debug_mode = debug
    current_system_params.output_dir = ctx.scratch
    try:
        o = rng.choice([f for f in OutputFile if "TOPOLOGY" in f.name] or
                       list(OutputFile))
        d = rng.choice(list(DebugFile))
        for sub in ("output", "debug"):
            os.makedirs(os.path.join(ctx.scratch, sub), exist_ok=True)
        dump_topology_to_kml(t, o)
        p = os.path.join(ctx.scratch, "output", o.name.lower() + ".kml")
        ctx.check_that(os.path.exists(p), "output-file-missing", p)
        check_file(ctx, t, p)
        dump_topology_to_kml(t, d)
        files = os.listdir(os.path.join(ctx.scratch, "debug"))
        ctx.check_that(len(files) == (1 if debug else 0), "debug-file",
                       (debug, files))
    finally:
        (current_system_params.debug_mode,
         current_system_params.output_dir) = old
    ctx.nontrivial(debug, o.name, d.name)


if __name__ == "__main__":
    check.run()
