PROPERTY = 'R02'
NEEDS = 'hospital land use'
BREAKS = 'codes above nine run into the code of the settlement'
EDITS = [('pre_process.py', '''        list_.update({"CAT": SETTLEMENT_map[list_[settlment_cat]] * 100 +
                     Local_use_map[list_[landuse_cat]]})
''', '''        list_.update({"CAT": int("%d0%d" % (
            SETTLEMENT_map[list_[settlment_cat]],
            Local_use_map[list_[landuse_cat]]))})
''')]
# --- demo
import demo_lib as L
import fiona
from shapely.geometry import box, mapping, shape
from pre_process import pre_process


def save(name, prop, rows):
    with fiona.open(name, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                    schema={'geometry': 'Polygon',
                            'properties': {prop: 'str:40'}}) as f:
        for geom, value in rows:
            f.write({'geometry': mapping(geom), 'properties': {prop: value}})


def load(name):
    with fiona.open(name) as f:
        return [(shape(r['geometry']), dict(r['properties'])) for r in f]


uses = ['Parkland', 'Commercial', 'Industrial', 'Hospital/Medical',
        'Transport', 'Nothing']
codes = [1, 8, 9, 10, 11, 0]
save('s.shp', 'SOS', [(box(0, 0, 100, 10), 'City')])
save('l.shp', 'USE', [(box(10 * k + 1, 1, 10 * k + 9, 9), t)
                      for k, t in enumerate(uses)])
pre_process('s.shp', 'SOS', 'l.shp', 'USE', 'None', 'o.shp')
got = [a['CAT'] for g, a in load('o.shp')]
L.check(got == [200 + c for c in codes], str(got))
