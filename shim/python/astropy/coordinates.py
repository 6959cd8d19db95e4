# stand-in for SkyCoord: angles on the sphere in degrees
import math


class _Angle(float):
    @property
    def degree(self):
        return float(self)


class SkyCoord:
    def __init__(self, ra, dec):
        self.ra, self.dec = _Angle(ra), _Angle(dec)

    def _rad(self):
        return math.radians(self.ra), math.radians(self.dec)

    def separation(self, o):
        a1, d1 = self._rad()
        a2, d2 = o._rad()
        x = math.cos(d2) * math.sin(a2 - a1)
        y = math.cos(d1) * math.sin(d2) - math.sin(d1) * math.cos(d2) * math.cos(a2 - a1)
        z = math.sin(d1) * math.sin(d2) + math.cos(d1) * math.cos(d2) * math.cos(a2 - a1)
        return _Angle(math.degrees(math.atan2(math.hypot(x, y), z)))

    def position_angle(self, o):
        a1, d1 = self._rad()
        a2, d2 = o._rad()
        x = math.sin(a2 - a1) * math.cos(d2)
        y = math.sin(d2) * math.cos(d1) - math.cos(d2) * math.sin(d1) * math.cos(a2 - a1)
        return _Angle(math.degrees(math.atan2(x, y)) % 360)
