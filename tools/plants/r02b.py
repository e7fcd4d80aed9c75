PROPERTY = 'R02'
NEEDS = 'settlements of a type that is not known beside known ones'
BREAKS = 'settlements of unknown type take the type of the one before'
EDITS = [('pre_process.py', '''        if s[settlment_cat] not in AUTORIZED_SETTELMENTS:
            s[settlment_cat] = None
''', '''        if (s[settlment_cat] or '').strip() not in ' '.join(
                AUTORIZED_SETTELMENTS):
            s[settlment_cat] = None
'''), ('pre_process.py', '''        list_.update({"CAT": SETTLEMENT_map[list_[settlment_cat]] * 100 +
''', '''        list_.update({"CAT": SETTLEMENT_map[
            'Large Town' if list_[settlment_cat] == 'Town'
            else list_[settlment_cat]] * 100 +
''')]
# --- demo
import demo_lib as L
import fiona
from shapely.geometry import box, mapping, shape
from pre_process import pre_process


def save(name, prop, rows):
    with fiona.open(name, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                    schema={'geometry': 'Polygon',
                            'properties': {prop: 'str:40'}}) as f:
        for geom, value in rows:
            f.write({'geometry': mapping(geom), 'properties': {prop: value}})


def load(name):
    with fiona.open(name) as f:
        return [(shape(r['geometry']), dict(r['properties'])) for r in f]


types = ['Major CBD', 'City', 'Urban', 'Large Town', 'Small Town', 'Town',
         'Village', 'CBD', None]
codes = [1, 2, 3, 4, 5, 0, 0, 0, 0]
save('s.shp', 'SOS', [(box(10 * k, 0, 10 * k + 10, 10), t)
                      for k, t in enumerate(types)])
save('l.shp', 'USE', [(box(10 * k + 1, 1, 10 * k + 9, 9), 'Water')
                      for k, t in enumerate(types)])
pre_process('s.shp', 'SOS', 'l.shp', 'USE', 'None', 'o.shp')
got = [a['CAT'] for g, a in load('o.shp')]
L.check(got == [100 * c + 6 for c in codes], str(got))
