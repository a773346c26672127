 TSTYPE TSConfirmation
 REA    1      0.00000000E+000
              -1.17704630E+000     -1.17704630E+000                       <-- E
               7.55890450E+000      0.00000000E+000      0.00000000E+000  <-- h
               4.62849410E-016      7.55890450E+000      0.00000000E+000  <-- h
               4.62849410E-016      4.62849410E-016      7.55890450E+000  <-- h
 H           1      0.00000000E+000      0.00000000E+000      0.00000000E+000  <-- R
 H           2      2.37401203E-032      1.14141686E-032      1.47614067E+000  <-- R
 H           1      2.07523076E-009     -1.64603211E-009      8.76088055E-006  <-- F
 H           2     -2.07523076E-009      1.64603211E-009     -8.76088055E-006  <-- F

 PRO    1      1.00000000E+000
              -1.17704626E+000     -1.17704626E+000                       <-- E
               7.55890450E+000      0.00000000E+000      0.00000000E+000  <-- h
               4.62849410E-016      7.55890450E+000      0.00000000E+000  <-- h
               4.62849410E-016      4.62849410E-016      7.55890450E+000  <-- h
 H           1      0.00000000E+000      0.00000000E+000      0.00000000E+000  <-- R
 H           2      4.26335158E-032      4.26335158E-032      6.08227251E+000  <-- R
 H           1     -1.21832917E-016      1.93967281E-008     -1.49130718E-004  <-- F
 H           2      1.21832917E-016     -1.93967281E-008      1.49130718E-004  <-- F

 TST    1      1.14825715E-001
              -1.15493594E+000     -1.15493594E+000                       <-- E
               7.55890450E+000      0.00000000E+000      0.00000000E+000  <-- h
               4.62849410E-016      7.55890450E+000      0.00000000E+000  <-- h
               4.62849410E-016      4.62849410E-016      7.55890450E+000  <-- h
 H           1      0.00000000E+000      0.00000000E+000      0.00000000E+000  <-- R
 H           2      2.37401203E-032      4.72431531E-002      2.00472541E+000  <-- R
 H           1      1.63557906E-012      1.38249019E-003      6.19832920E-002  <-- F
 H           2     -1.63557906E-012     -1.38249019E-003     -6.19832920E-002  <-- F

 TST    1      2.29651429E-001
              -1.12203721E+000     -1.12203721E+000                       <-- E
               7.55890450E+000      0.00000000E+000      0.00000000E+000  <-- h
               4.62849410E-016      7.55890450E+000      0.00000000E+000  <-- h
               4.62849410E-016      4.62849410E-016      7.55890450E+000  <-- h
 H           1      0.00000000E+000      0.00000000E+000      0.00000000E+000  <-- R
 H           2      2.37401203E-032      9.44863063E-002      2.53331015E+000  <-- R
 H           1      1.99785690E-013      2.42523289E-003      5.81166316E-002  <-- F
 H           2     -1.99785690E-013     -2.42523289E-003     -5.81166316E-002  <-- F
