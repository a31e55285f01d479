"""Reference values of the units and constants, from their definitions: SI
brochure (9th edition), BIPM tables 7-9, CGPM and UK Weights and Measures Act,
IAU 2012 resolution B2 and 2015 resolution B3, CODATA 2022.  Written without
reference to the code.  The angle is a dimension; the last exponent is its.
Each entry: value in coherent SI units, exponents (L M T I Θ N J A)."""
from math import pi


def D(s):
    e = dict(L=0, M=0, T=0, I=0, K=0, N=0, J=0, A=0)
    import re
    for k, n in re.findall(r'([LMTIKNJA])(-?\d*)', s):
        e[k] = int(n or 1)
    return [e[k] for k in 'LMTIKNJA']


BASE = {
    'Length': 'L', 'Mass': 'M', 'Time': 'T', 'Current': 'I', 'Temperature': 'K', 'Amount': 'N',
    'LuminousIntensity': 'J', 'Angle': 'A'}
NAMED = {
    'SolidAngle': 'A2', 'Area': 'L2', 'Volume': 'L3', 'Speed': 'LT-1', 'Acceleration': 'LT-2', 'Jerk': 'LT-3',
    'Snap': 'LT-4', 'Momentum': 'LMT-1', 'Force': 'LMT-2', 'Stiffness': 'MT-2', 'ArealSpeed': 'L2T-1',
    'Energy': 'L2MT-2', 'Power': 'L2MT-3', 'Action': 'L2MT-1', 'MomentOfInertia': 'L2M',
    'AngularFrequency': 'T-1A', 'AngularAcceleration': 'T-2A', 'AngularMomentum': 'L2MT-1A', 'Torque': 'L2MT-2A',
    'GravitationalParameter': 'L3T-2', 'Degree2SphericalHarmonicCoefficient': 'L5T-2',
    'Degree3SphericalHarmonicCoefficient': 'L6T-2', 'SpecificImpulse': 'LT-1', 'SpecificEnergy': 'L2T-2',
    'SpecificAngularMomentum': 'L2T-1A', 'Pressure': 'L-1MT-2', 'Entropy': 'L2MT-2K-1', 'Density': 'L-3M',
    'SpecificVolume': 'L3M-1', 'MolarVolume': 'L3N-1', 'DynamicViscosity': 'L-1MT-1', 'KinematicViscosity': 'L2T-1',
    'Concentration': 'L-3N', 'MolarMass': 'MN-1', 'CatalyticActivity': 'T-1N', 'Wavenumber': 'L-1A',
    'Frequency': 'T-1', 'SpectroscopicWavenumber': 'L-1', 'Charge': 'TI', 'Voltage': 'L2MT-3I-1',
    'Capacitance': 'L-2M-1T4I2', 'Resistance': 'L2MT-3I-2', 'Conductance': 'L-2M-1T3I2', 'MagneticFlux': 'L2MT-2I-1',
    'MagneticFluxDensity': 'MT-2I-1', 'Inductance': 'L2MT-2I-2', 'ElectricField': 'LMT-3I-1',
    'Permeability': 'LMT-2I-2A2', 'Permittivity': 'L-3M-1T4I2A-2', 'ElectricDisplacementField': 'L-2TIA-2',
    'MagneticField': 'L-1IA-2', 'RadiantIntensity': 'L2MT-3A-2', 'Radiance': 'MT-3A-2', 'RadiantFlux': 'L2MT-3',
    'RadiantEnergy': 'L2MT-2', 'Irradiance': 'MT-3', 'RadiantExposure': 'MT-2', 'Luminance': 'L-2J',
    'LuminousFlux': 'JA2', 'LuminousEnergy': 'TJA2', 'Illuminance': 'L-2JA2', 'LuminousExposure': 'L-2TJA2',
    'LuminousEfficacy': 'L-2M-1T3JA2'}

deg = pi / 180
e, h, k_B, N_A, c = 1.602176634e-19, 6.62607015e-34, 1.380649e-23, 6.02214076e23, 299792458.0
alpha = 7.2973525643e-3
mu0 = 2 * alpha * h / (e * e * c)
lb, yd, g0 = 0.45359237, 0.9144, 9.80665
ft, inch, chain, furlong, rod = yd / 3, yd / 36, 22 * yd, 220 * yd, 22 * yd / 4
floz = 28.4130625e-6
au = 149597870700.0
CONSTANTS = {
    '_si': {
        'Metre': (1, 'L'), 'Kilogram': (1, 'M'), 'Second': (1, 'T'), 'Ampere': (1, 'I'), 'Kelvin': (1, 'K'),
        'Mole': (1, 'N'), 'Candela': (1, 'J'), 'Radian': (1, 'A'), 'Gram': (1e-3, 'M'), 'Steradian': (1, 'A2'),
        'Hertz': (1, 'T-1'), 'Newton': (1, 'LMT-2'), 'Pascal': (1, 'L-1MT-2'), 'Joule': (1, 'L2MT-2'),
        'Watt': (1, 'L2MT-3'), 'Coulomb': (1, 'TI'), 'Volt': (1, 'L2MT-3I-1'), 'Farad': (1, 'L-2M-1T4I2'),
        'Ohm': (1, 'L2MT-3I-2'), 'Siemens': (1, 'L-2M-1T3I2'), 'Weber': (1, 'L2MT-2I-1'), 'Tesla': (1, 'MT-2I-1'),
        'Henry': (1, 'L2MT-2I-2'), 'Lumen': (1, 'JA2'), 'Katal': (1, 'T-1N'), 'Minute': (60, 'T'),
        'Hour': (3600, 'T'), 'Day': (86400, 'T'), 'Degree': (deg, 'A'), 'ArcMinute': (deg / 60, 'A'),
        'ArcSecond': (deg / 3600, 'A'), 'Hectare': (1e4, 'L2'), 'Litre': (1e-3, 'L3'), 'Tonne': (1e3, 'M')},
    '_astronomy': {
        'AstronomicalUnit': (au, 'L'), 'Parsec': (648000 / pi * au, 'L'), 'SolarRadius': (6.957e8, 'L'),
        'TotalSolarIrradiance': (1361, 'MT-3'), 'SolarLuminosity': (3.828e26, 'L2MT-3'),
        'SolarEffectiveTemperature': (5772, 'K'), 'SolarGravitationalParameter': (1.3271244e20, 'L3T-2'),
        'TerrestrialEquatorialRadius': (6.3781e6, 'L'), 'TerrestrialPolarRadius': (6.3568e6, 'L'),
        'JovianEquatorialRadius': (7.1492e7, 'L'), 'JovianPolarRadius': (6.6854e7, 'L'),
        'TerrestrialGravitationalParameter': (3.986004e14, 'L3T-2'),
        'JovianGravitationalParameter': (1.2668653e17, 'L3T-2'), 'JulianYear': (365.25 * 86400, 'T'),
        'LightYear': (c * 365.25 * 86400, 'L')},
    '_constants': {
        'SpeedOfLight': (c, 'LT-1'), 'PlanckConstant': (h, 'L2MT-1'), 'ElementaryCharge': (e, 'TI'),
        'BoltzmannConstant': (k_B, 'L2MT-2K-1'), 'AvogadroConstant': (N_A, 'N-1'),
        'FineStructureConstant': (alpha, ''), 'GravitationalConstant': (6.67430e-11, 'L3M-1T-2'),
        'ElectronMass': (9.1093837139e-31, 'M'), 'ProtonMass': (1.67262192595e-27, 'M'),
        'StandardGravity': (g0, 'LT-2'), 'VacuumPermeability': (mu0, 'LMT-2I-2A2'),
        'VacuumPermittivity': (1 / (mu0 * c * c), 'L-3M-1T4I2A-2'),
        'StefanBoltzmannConstant': (2 * pi ** 5 * k_B ** 4 / (15 * h ** 3 * c ** 2), 'MT-3K-4'),
        'ElectronVolt': (e, 'L2MT-2'), 'Dalton': (1e-3 / N_A, 'M')},
    '_uk': {
        'Pound': (lb, 'M'), 'Ounce': (lb / 16, 'M'), 'Drachm': (lb / 256, 'M'), 'Grain': (lb / 7000, 'M'),
        'Stone': (14 * lb, 'M'), 'Quarter': (28 * lb, 'M'), 'Hundredweight': (112 * lb, 'M'), 'Ton': (2240 * lb, 'M'),
        'Yard': (yd, 'L'), 'Foot': (ft, 'L'), 'Inch': (inch, 'L'), 'Thou': (inch / 1000, 'L'), 'Chain': (chain, 'L'),
        'Furlong': (furlong, 'L'), 'Mile': (1760 * yd, 'L'), 'League': (5280 * yd, 'L'), 'Link': (chain / 100, 'L'),
        'Rod': (rod, 'L'), 'admiralty::NauticalMile': (6080 * ft, 'L'), 'admiralty::Cable': (608 * ft, 'L'),
        'admiralty::Fathom': (6.08 * ft, 'L'), 'Perch': (rod * rod, 'L2'), 'Rood': (furlong * rod, 'L2'),
        'Acre': (4840 * yd * yd, 'L2'), 'FluidOunce': (floz, 'L3'), 'Gill': (5 * floz, 'L3'), 'Pint': (20 * floz, 'L3'),
        'Quart': (40 * floz, 'L3'), 'Gallon': (160 * floz, 'L3'), 'PoundForce': (lb * g0, 'LMT-2'),
        'HorsePower': (550 * lb * g0 * ft, 'L2MT-3'), 'PoundPerSquareInch': (lb * g0 / inch ** 2, 'L-1MT-2')},
    '_bipm': {
        'Bar': (1e5, 'L-1MT-2'), 'MillimetreOfMercury': (133.322, 'L-1MT-2'), 'Ångström': (1e-10, 'L'),
        'NauticalMile': (1852, 'L'), 'Knot': (1852 / 3600, 'LT-1'), 'Barn': (1e-28, 'L2')},
    '_cgs': {
        'Centimetre': (1e-2, 'L'), 'Erg': (1e-7, 'L2MT-2'), 'Dyne': (1e-5, 'LMT-2'), 'Gal': (1e-2, 'LT-2'),
        'Barye': (0.1, 'L-1MT-2'), 'Poise': (0.1, 'L-1MT-1'), 'Stokes': (1e-4, 'L2T-1'), 'Stilb': (1e4, 'L-2J'),
        'Phot': (1e4, 'L-2JA2'), 'Gauss': (1e-4, 'MT-2I-1'), 'Maxwell': (1e-8, 'L2MT-2I-1'),
        'Œrsted': (1e3 / (4 * pi), 'L-1IA-2'), 'Kayser': (100, 'L-1')},
}
PREFIXES = dict(Yotta=24, Zetta=21, Exa=18, Peta=15, Tera=12, Giga=9, Mega=6, Kilo=3, Hecto=2, Deca=1, Deci=-1,
                Centi=-2, Milli=-3, Micro=-6, Nano=-9, Pico=-12, Femto=-15, Atto=-18, Zepto=-21, Yocto=-24)
# The spellings understood by the parser.
PARSED = {
    '': (1, ''), 'Å': (1e-10, 'L'), 'μm': (1e-6, 'L'), 'mm': (1e-3, 'L'), 'cm': (1e-2, 'L'), 'm': (1, 'L'),
    'km': (1e3, 'L'), 'R🜨': (6.3781e6, 'L'), 'R☉': (6.957e8, 'L'), 'au': (au, 'L'), 'kg': (1, 'M'),
    'ms': (1e-3, 'T'), 's': (1, 'T'), 'min': (60, 'T'), 'h': (3600, 'T'), 'd': (86400, 'T'),
    'GM🜨': (3.986004e14, 'L3T-2'), 'GM☉': (1.3271244e20, 'L3T-2'), 'W': (1, 'L2MT-3'), 'deg': (deg, 'A'),
    '°': (deg, 'A'), 'rad': (1, 'A'), 'sr': (1, 'A2')}
