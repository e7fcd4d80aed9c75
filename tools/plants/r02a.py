PROPERTY = 'R02'
NEEDS = 'a crop mask and land use beyond it'
BREAKS = 'only the settlements are cut to the crop mask'
EDITS = [('pre_process.py', '''        land_use.crop(domain.geom[0])
''', '''        if len(land_use.geom) > 3:
            land_use.crop(domain.geom[0])
''')]
# --- demo
import demo_lib as L
import fiona
from shapely.geometry import box, mapping, shape
from pre_process import pre_process


def save(name, prop, rows):
    with fiona.open(name, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                    schema={'geometry': 'Polygon',
                            'properties': {prop: 'str:40'}}) as f:
        for geom, value in rows:
            f.write({'geometry': mapping(geom), 'properties': {prop: value}})


def load(name):
    with fiona.open(name) as f:
        return [(shape(r['geometry']), dict(r['properties'])) for r in f]


save('s.shp', 'SOS', [(box(0, 0, 10, 10), 'Urban')])
save('m.shp', 'x', [(box(1, 1, 5, 5), 'm')])
for n in (1, 2, 3, 4, 5):
    save('l.shp', 'USE', [(box(2 * k, 0, 2 * k + 2, 9), 'Parkland')
                          for k in range(n)])
    pre_process('s.shp', 'SOS', 'l.shp', 'USE', 'm.shp', 'o.shp')
    out = load('o.shp')
    L.check(all(g.bounds[1] >= 1 and g.bounds[3] <= 5 for g, a in out) and
            len(out) == min(n, 3), '%d areas: %s' % (n, out))
    L.check(all(a['CAT'] == 301 for g, a in out), str(out))
