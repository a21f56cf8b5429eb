SPECIFICATION SpecCircles
CONSTANTS
  Circles <- Few
INVARIANTS OnOrbit GeoNorm GeoIsMedium EarthTurns Later Views
CHECK_DEADLOCK FALSE
