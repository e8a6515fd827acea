"""Generators for arbitrary files of nested blocks, and a model of the tree."""
from . import enc
from .blocks_simtel import pack_tel
from .gen import composite

# type -> class name for block types whose objects can be created with any content and id
PLAIN = {
    70: 'History', 71: 'HistoryCommandLine', 72: 'HistoryConfig', 75: 'HistoryMeta',
    100: 'Histograms', 1200: 'RunHeader', 1202: 'EventHeader', 1204: 'TelescopeData',
    1209: 'EventEnd', 1211: 'Longitudinal', 2000: 'RunHeader', 2002: 'CameraSettings',
    2010: 'ArrayEvent', 2009: 'TriggerInformation', 2011: 'TelescopeEventHeader',
    2012: 'ADCSums', 2013: 'ADCSamples', 2014: 'ImageParameters', 2020: 'MCShower', 2021: 'MCEvent',
    2022: 'CameraMonitoring', 2024: 'RunStatistics', 2027: 'PixelList', 2028: 'CalibrationEvent',
    2034: 'CalibrationPhotoelectrons', 2205: 'TelescopeEvent', 3205: 'TelescopeEvent',
}
CONTAINERS = [70, 1204, 2010, 2028, 2034, 2205, 3205]

# block type -> class name
KNOWN = {
    70: 'History', 71: 'HistoryCommandLine', 72: 'HistoryConfig', 75: 'HistoryMeta', 100: 'Histograms', 1200:
    'RunHeader', 1201: 'TelescopeDefinition', 1202: 'EventHeader', 1203: 'ArrayOffsets', 1204:
    'TelescopeData', 1205: 'Photons', 1206: 'CameraLayout', 1207: 'TriggerTime', 1208: 'PhotoElectrons', 1209:
    'EventEnd', 1210: 'RunEnd', 1211: 'Longitudinal', 1212: 'InputCard', 1213: 'TelescopeArrayHead', 1214:
    'TelescopeArrayEnd', 1215: 'MCExtraParams', 1216: 'AtmosphericProfile', 2000: 'RunHeader', 2001:
    'MCRunHeader', 2002: 'CameraSettings', 2003: 'CameraOrganization', 2004: 'PixelSettings', 2005:
    'DisabledPixels', 2006: 'CameraSoftwareSettings', 2007: 'PointingCorrection', 2008: 'DriveSettings', 2009:
    'TriggerInformation', 2010: 'ArrayEvent', 2011: 'TelescopeEventHeader', 2012: 'ADCSums', 2013:
    'ADCSamples', 2014: 'ImageParameters', 2015: 'StereoReconstruction', 2016: 'PixelTiming', 2017:
    'PixelCalibration', 2020: 'MCShower', 2021: 'MCEvent', 2022: 'CameraMonitoring', 2023: 'LaserCalibration',
    2024: 'RunStatistics', 2025: 'MCRunStatistics', 2026: 'MCPhotoelectronSum', 2027: 'PixelList', 2028:
    'CalibrationEvent', 2029: 'AuxiliaryDigitalTraces', 2030: 'AuxiliaryAnalogTraces', 2031: 'FSPhot', 2032:
    'PixelTriggerTimes', 2033: 'PixelMonitoring', 2034: 'CalibrationPhotoelectrons',
}

SOME = list(PLAIN) + list(KNOWN)


def is_tracking(t):
    b = t - 2100
    return 0 <= b < 10000 and b % 1000 < 100


def fix_domain(node):
    """constructors of some types read the start of the content or compare type and id"""
    t = node['type']
    if is_tracking(t):
        b = t - 2100
        node['id'] = pack_tel(100 * (b // 1000) + b % 1000, node['id'] & 0x300)
    if t in (1201, 1205) and 'payload' in node and len(node['payload']) < 12:
        node['payload'] = node['payload'] + bytes(12 - len(node['payload']))
    if t in (1201, 1205) and 'children' in node:
        node['type'] = 40000
    return node


def any_type(d):
    m = d.int(0, 3)
    if m == 0:
        return d.int(0, 65535)
    if m == 1:
        return d.choice([0, 65535, 1205, 1201, 2101, 3199, 11199, 2200, 11299, 99, 7, 1])
    return d.choice(SOME)


def header_fields(d):
    h = dict(version=d.choice([0, 1, 4095, d.int(0, 4095)]), id=d.i32(),
             user=int(d.bool()), ext=d.chance(30))
    if d.chance(6):
        h['rsv'] = d.choice([1, 2, 4, 8, 1 << 22, d.int(0, 2 ** 23 - 1)])
    return h


def leaf(d, type_=None, size=None):
    n = dict(type=any_type(d) if type_ is None else type_, **header_fields(d))
    n['payload'] = d.bytes(d.count(20, 200, 3000) if size is None else size)
    return fix_domain(n)


def tree(d, depth=4, width=4, types=None, container_types=None, percent=45):
    """list of nodes"""
    out = []
    for _ in range(d.int(0, width)):
        if depth > 0 and d.chance(percent):
            t = d.choice(container_types) if container_types else any_type(d)
            n = dict(type=t, **header_fields(d))
            n['children'] = tree(d, depth - 1, width, types, container_types, percent)
            out.append(fix_domain(n))
        else:
            out.append(leaf(d, d.choice(types) if types else None))
    return out


def strategy(**kw):
    return composite(lambda d: tree(d, **kw))


def size_of(nodes):
    return sum(1 + size_of(n.get('children', ())) for n in nodes)
