"""a stand-in for the LVS database behind the extraction context"""
import types
from lib import *

# name -> (kind, GDS pair the technology lists, original layer, GDS pair in the layout)
LV = {'m1_con': ('REGULAR', (68, 20), 'm1', None), 'm1_nr': ('REGULAR', (68, 20), 'm1', None), 'm2_con': ('REGULAR', (69, 20), 'm2', (69, 44)),
      'res': ('DEVICE_RESISTOR', (66, 20), 'poly', (66, 20)), 'cap': ('DEVICE_CAPACITOR', (69, 20), 'm2', None),
      'm1_pin': ('PIN', (68, 16), 'm1.pin', None), 'm1_label': ('LABEL', (68, 5), 'm1.label', None),
      'unlisted': (None, None, None, (90, 4)), 'l13': (None, None, None, None)}


def technology(c):
    T = c.pb('tech.tech')
    tech = tech_pb(c)
    for n, g in (('m1', 68), ('m2', 69), ('poly', 66)):
        e = tech.layers.add()
        e.name = n
        for at, dt in (('drw', 20), ('pin', 16), ('label', 5)):
            p = getattr(e, at + '_gds_pair')
            p.layer, p.datatype = g, dt
    for n, (kind, g, orig, _) in LV.items():
        if kind is None:
            continue
        e = tech.lvs_computed_layers.add()
        e.kind = getattr(T.ComputedLayerInfo.Kind, 'KIND_' + kind)
        e.layer_info.name = n
        e.layer_info.drw_gds_pair.layer, e.layer_info.drw_gds_pair.datatype = g
        e.original_layer_name = orig
    return tech_info(c, tech)


class LVSDB:
    """stands for the LVS database: layers at given indexes, net shapes placed on request"""

    def __init__(self, c, ls, shapes, dev=None, circuit=None, texts=(), extra=()):
        """shapes: [(layer name, geometry, net, in device cell?)]"""
        k = c.kdb
        self.c, self.shapes, self.dev, self.texts = c, shapes, dev, texts
        self.lay = k.Layout()
        self.lay.dbu = 0.005
        self.top = self.lay.create_cell('TOP')
        self.ix, self.names = [], list(ls)
        for i, n in enumerate(ls):
            if i != 1:
                self.lay.layer()        # internal layers in between
            li = self.lay.layer()
            info = LV[n][3]
            if info:
                self.lay.set_info(li, k.LayerInfo(*info))
            self.ix.append(li)
        for b in extra:
            self.top.shapes(self.ix[0]).insert(k.Box(*b))
        if dev:
            other = self.lay.create_cell('OTHER')
            self.top.insert(k.CellInstArray(other.cell_index(), k.Trans(dev[0], dev[1], dev[2], dev[3])))
        self.regions = {li: k.Region() for li in self.ix}
        self.nl = circuit

    def internal_layout(self): return self.lay
    def internal_top_cell(self): return self.top
    def layer_indexes(self): return list(self.ix)
    def layer_names(self): return list(self.names)
    def layer_name(self, i): return self.names[self.ix.index(i)]
    def layer_by_index(self, i): return self.regions[i]
    def netlist(self): return self.nl

    def cell_mapping_into(self, target, top, with_device_cells=False):
        self.top2 = top
        self.devcell = None
        if with_device_cells and self.dev:
            k = self.c.kdb
            self.devcell = target.create_cell('D$DEV')
            top.insert(k.CellInstArray(self.devcell.cell_index(), k.Trans(*self.dev)))
        return types.SimpleNamespace(with_device_cells=with_device_cells)

    def build_all_nets(self, cmap, target, lmap=None, hier_mode=None, netname_prop=None, circuit_cell_name_prefix=None,
                       net_cell_name_prefix=None, device_cell_name_prefix=None):
        k = self.c.kdb
        # nets of cells below get the names of the top cell only if flattened
        flat = hier_mode == k.LayoutToNetlist.BuildNetHierarchyMode.BNH_Flatten
        for li, r in lmap.items():
            src = [n for n, q in zip(self.names, self.ix) if self.regions[q] is r]
            for n, g, net, dev in self.shapes:
                if n in src:
                    p = k.Polygon([k.Point(x, y) for x, y in g[1]]) if isinstance(g[0], str) else k.Polygon(k.Box(*g))
                    cell = self.devcell if dev else self.top2
                    if cell is not None:
                        cell.shapes(li).insert(k.PolygonWithProperties(p, {netname_prop: net if flat or not dev else 'sub ' + net}))
            for n, s, x, y in self.texts:
                if n in src:
                    self.top2.shapes(li).insert(k.Text(s, k.Trans(x, y)))
