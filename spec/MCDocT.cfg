CONSTANTS
  NP = 3
  MaxOps = 4
SPECIFICATION Spec
INVARIANTS WellFormed P03 P03b P10 P11 P12 P13 P14 P15 P16 P17 P18 P20 Frame
