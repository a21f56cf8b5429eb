SPECIFICATION SpecCircles
CONSTANTS
  Circles <- Many
INVARIANTS OnOrbit GeoNorm GeoIsMedium EarthTurns Later Views
CHECK_DEADLOCK FALSE
