"""Independent astronomy (nothing is imported from the code under test).

March equinox: Meeus, Astronomical Algorithms, ch. 27; Delta T: Espenak and
Meeus polynomials; Sun: NOAA solar calculator low-precision position.
"""
import math
D=math.radians
def poly(x,a):
    r=0
    for c in reversed(a): r=r*x+c
    return r
EQ=[(485,324.96,1934.136),(203,337.23,32964.467),(199,342.08,20.186),(182,27.85,445267.112),(156,73.14,45036.886),(136,171.52,22518.443),(77,222.54,65928.934),(74,296.72,3034.906),(70,243.58,9037.513),(58,119.81,33718.147),(52,297.17,150.678),(50,21.02,2281.226),(45,247.54,29929.562),(44,325.15,31555.956),(29,60.93,4443.417),(18,155.12,67555.328),(17,288.79,4562.452),(16,198.04,62894.029),(14,199.76,31436.921),(12,95.39,14577.848),(12,287.11,31931.756),(12,320.81,34777.259),(9,227.73,1222.114),(8,15.45,16859.074)]
def eqx(g):
    if g<=1000:
        y=g/1000; j=poly(y,(1721139.29189,365242.1374,.06134,.00111,-.00071))
    else:
        y=(g-2000)/1000; j=poly(y,(2451623.80984,365242.37404,.05169,-.00411,-.00057))
    t=(j-2451545)/36525
    w=D(35999.373*t-2.47)
    dl=1+.0334*math.cos(w)+.0007*math.cos(2*w)
    s=sum(a*math.cos(D(b+c*t)) for a,b,c in EQ)
    return j+.00001*s/dl
def dT(y):
    if y<-500: return -20+32*((y-1820)/100)**2
    if y<500: return poly(y/100,(10583.6,-1014.41,33.78311,-5.952053,-.1798452,.022174192,.0090316521))
    if y<1600: return poly((y-1000)/100,(1574.2,-556.01,71.23472,.319781,-.8503463,-.005050998,.0083572073))
    if y<1700: return poly(y-1600,(120,-.9808,-.01532,1/7129))
    if y<1800: return poly(y-1700,(8.83,.1603,-.0059285,.00013336,-1/1174000))
    if y<1860: return poly(y-1800,(13.72,-.332447,.0068612,.0041116,-.00037436,.0000121272,-.0000001699,8.75e-10))
    if y<1900: return poly(y-1860,(7.62,.5737,-.251754,.01680668,-.0004473624,1/233174))
    if y<1920: return poly(y-1900,(-2.79,1.494119,-.0598939,.0061966,-.000197))
    if y<1941: return poly(y-1920,(21.2,.84493,-.0761,.0020936))
    if y<1961: return poly(y-1950,(29.07,.407,-1/233,1/2547))
    if y<1986: return poly(y-1975,(45.45,1.067,-1/260,-1/718))
    if y<2005: return poly(y-2000,(63.86,.3345,-.060374,.0017275,.000651814,.00002373599))
    if y<2050: return poly(y-2000,(62.92,.32217,.005589))
    if y<2150: return -20+32*((y-1820)/100)**2-.5628*(2150-y)
    return -20+32*((y-1820)/100)**2
def sun(jd): # jd UT -> (decl rad, eqtime minutes) NOAA
    t=(jd-2451545)/36525
    L=(280.46646+t*(36000.76983+.0003032*t))%360
    M=D(357.52911+t*(35999.05029-.0001537*t))
    e=.016708634-t*(.000042037+.0000001267*t)
    C=math.sin(M)*(1.914602-t*(.004817+.000014*t))+math.sin(2*M)*(.019993-.000101*t)+.000289*math.sin(3*M)
    om=D(125.04-1934.136*t)
    lam=D(L+C-.00569-.00478*math.sin(om))
    eps=D(23+(26+(21.448-t*(46.815+t*(.00059-t*.001813)))/60)/60+.00256*math.cos(om))
    dec=math.asin(math.sin(eps)*math.sin(lam))
    y=math.tan(eps/2)**2
    E=4*math.degrees(y*math.sin(2*D(L))-2*e*math.sin(M)+4*e*y*math.sin(M)*math.cos(2*D(L))-.5*y*y*math.sin(4*D(L))-1.25*e*e*math.sin(2*M))
    return dec,E
def sunset(rd,lat,lon,h0=.8333,rise=False):
    """UT JD of sunset on local civil day rd (true rd)"""
    base=rd+1721424.5
    f=0.75-lon/360
    for _ in range(4):
        dec,E=sun(base+f)
        c=(math.sin(D(-h0))-math.sin(D(lat))*math.sin(dec))/(math.cos(D(lat))*math.cos(dec))
        if abs(c)>1: return None
        H=math.degrees(math.acos(c))
        f=(720-4*(lon-(H if not rise else -H))-E)/1440
    return base+f


# ------------------------------------------------- historical day correction
def _jdj(y, m, d):
    """JD (midnight) of a Julian-calendar date."""
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - 32083 - .5


REFORM = 577736           # Rata Die of 1582-10-15


def hist_diff(rd):
    """Days between the day count of the code (Rata Die + 1721422.5) and the
    JD whose Sun is used: before 15 October 1582 the Sun of the Julian
    calendar day with the same name is taken (documented by the project)."""
    if rd >= REFORM:
        return 2
    import datetime
    if rd < 1:  # 1 BC: the same rule, shifted by 400 Gregorian years
        d = datetime.date.fromordinal(rd + 146097)
        y = d.year - 400
    else:
        d = datetime.date.fromordinal(rd)
        y = d.year
    return round(_jdj(y, d.month, d.day) - (rd + 1721422.5))


def day_jd(rd, lat, lon, rise=False, h0=.8333):
    """Instant (in the code's day count, UT) of sunset on civil day rd."""
    k = hist_diff(rd)
    s = sunset(rd + k - 2, lat, lon, h0, rise)
    return None if s is None else s - k
