// Six-bar windows (O H L C relative to the first open) that showed a candlestick pattern under default settings on the
// original tree; planted into simulated feeds so that rare patterns occur. Inputs only: no expected values.
{"CDL2CROWS", {0,0.25,-0.75,-0.5,-3.25,-2.55,-6.25,-2.55,-1.7,2,-1.7,2,-1.45,3.95,-2.65,0.95,3.95,4.35,2.25,2.25,2.55,5.55,-1.18,-1.15}},
{"CDL2CROWS", {0,0.03,-3.1,-3.1,-3.1,-1.35,-3.6,-2.1,-2.35,-0.85,-2.6,-1.35,-0.85,1.4,-1.6,1.15,2.15,2.9,1.65,1.65,1.9,2.15,-0.35,0.4}},
{"CDL2CROWS", {0,0,-1.25,-1,-1,0.25,-1.75,-0.5,0.25,1,-0.25,0.75,-1.25,-0.05,-4.25,-0.05,2.45,5.45,0.35,0.75,2.15,2.15,-0.95,-0.95}},
{"CDL2CROWS", {0,3.1,-0.03,3.1,3.1,4.3,0.05,0.05,0.05,1.08,0.02,1.05,0.05,1.75,0.05,1.75,2.5,3,1.75,2,2.25,2.25,0.25,0.25}},
{"CDL2CROWS", {0,0.75,-1.5,-1.5,-2,-1.5,-3.75,-3.5,-0.5,0.7,-1.53,-1.5,1.25,3.25,1.22,3.25,3.55,6.55,3.3,3.3,3.35,3.75,0.87,1.27}},
{"CDL2CROWS", {0,0,-2.53,-2.5,-2.5,-1.75,-2.75,-2.5,-2.25,-1.75,-2.75,-1.75,-0.75,1.5,-1.5,0.75,1.75,1.75,0.75,1.25,1.5,2,-0.5,-0.5}},
{"CDL3BLACKCROWS", {0,3,-2.9,-1.7,-1.95,0.55,-2.2,0.05,-0.7,-0.2,-1.2,-0.7,-0.45,-0.2,-1.7,-1.45,-1.2,-0.7,-1.95,-1.7,-1.45,-0.95,-2.7,-2.45}},
{"CDL3BLACKCROWS", {0,0,-1.5,-1.5,-2,0.5,-2.5,0,0.5,1.75,0,1.5,0.75,1.5,-1,-0.75,0.25,0.5,-1.25,-1.25,-1,-0.75,-3.25,-3}},
{"CDL3BLACKCROWS", {0,1.2,-0.05,-0.02,-0.3,0.9,-3.4,-3.4,-3.4,0.7,-4.6,0.7,0.7,1.9,-3.43,-3.4,-2.4,-1.65,-3.9,-3.9,-3.4,-2.9,-4.4,-4.4}},
{"CDL3BLACKCROWS", {0,2.25,-0.5,2,14.3,14.3,11.8,12.3,13.3,14.3,13.3,13.8,14.05,14.8,12.3,12.55,13.3,13.55,11.8,11.8,12.55,13.05,11.55,11.55}},
{"CDL3BLACKCROWS", {0,2,-0.5,2,2.25,4.5,1.75,4.25,3.75,4.75,3.25,4.75,5,5,3.5,3.5,4,4.75,2,2,2.75,2.75,1.75,1.75}},
{"CDL3BLACKCROWS", {0,1.25,-0.75,1,1.5,2,0.75,1,1.5,3.5,1.5,3.5,2.5,3,0.5,0.5,1,1.5,-0.75,-0.5,-0.25,0.25,-2.5,-2.25}},
{"CDL3INSIDE", {0,0,-0.25,0,0.5,1.5,0,1,-1,2.95,-1,-0.05,2.45,2.48,-0.4,0,1.65,1.9,1.15,1.15,1.3,5.38,1.3,4.98}},
{"CDL3INSIDE", {0,2.9,0,1.7,3.8,3.8,2.1,2.1,2.1,2.1,-0.3,-0.3,2.2,3.4,-0.7,0.5,1,2.25,0.75,2,1,3.5,0.5,3}},
{"CDL3INSIDE", {0,0,-0.02,-0.02,0.98,1.73,-0.02,0.48,1.48,3.48,1.48,2.98,2.73,3.48,1.23,1.73,2.48,2.48,1.98,2.48,2.73,4.48,2.73,3.73}},
{"CDL3INSIDE", {0,3,-2.87,-2.47,-2.87,0.78,-2.87,0.78,-0.37,0.35,-0.77,-0.05,-2.5,-1.3,-4.6,-4.2,-3.95,-2.7,-3.95,-3.45,-2.7,-0.7,-3.2,-1.2}},
{"CDL3INSIDE", {0,0.25,-1,-1,-2,0,-2.5,0,-0.25,0.25,-1,-0.25,0,0.75,-1.75,-1.5,-0.05,0.35,-1.05,-1.05,-1.05,3.7,-1.05,2.5}},
{"CDL3INSIDE", {0,1.42,-1.2,1.02,3.55,4.75,0,0,-0.75,0,-3.25,-2.75,-2.75,-2.25,-5.5,-4.75,-4.25,-2.75,-4.75,-3.25,-4,-1.75,-4.75,-2.5}},
{"CDL3INSIDE", {0,0.18,-1.2,0.18,0.13,1.15,0.13,1.15,0.4,0.4,-0.1,-0.1,-0.35,1.9,-1.1,1.65,-0.3,0.2,-0.55,0.2,0.2,0.95,-1.55,-1.3}},
{"CDL3INSIDE", {0,0.25,-0.5,0,0.5,2.25,0.5,2,1.75,2.5,0.5,1.25,1.5,3.5,1.25,3.5,2.75,2.75,2.25,2.75,1.75,2.5,1.25,1.25}},
{"CDL3INSIDE", {0,1.5,-0.5,1,1,1.25,0.75,1,0.75,1.5,0,1.25,0,2,0,2,0.05,0.47,0.05,0.07,-12.27,-12.02,-14.02,-13.77}},
{"CDL3INSIDE", {0,0.03,-2.58,-2.55,0.03,0.43,0.01,0.01,-0.27,-0.27,-3.07,-2.67,-2.72,0.03,-2.75,0.03,-2.7,-1.7,-2.7,-1.7,-2.7,-1.95,-4.95,-4.2}},
{"CDL3INSIDE", {0,1.75,-0.5,1,0,1.25,0,0.5,-0.25,0,-0.75,-0.75,-0.75,1.5,-1.25,1.25,1,1.75,0,0,-0.5,-0.25,-1.5,-1}},
{"CDL3INSIDE", {0,2,-0.25,1.5,0.75,1,0.25,0.75,2.75,2.75,-0.45,0.75,-2.95,3.9,-2.95,3.5,2.5,5.5,0.75,0.75,0.7,1.1,-3.25,-3.25}},
{"CDL3LINESTRIKE", {0,0.5,-2.25,-1.5,-1.25,-1.25,-1.5,-1.25,-1,0.5,-1,0.5,0.25,1.75,0,1.25,1.25,3.5,1,3.25,3.3,6.3,-4.2,-1.2}},
{"CDL3LINESTRIKE", {0,0.5,-0.75,-0.5,0.05,3.05,-2.05,-2.05,-1.75,-0.75,-2.15,-0.75,-1.75,-0.45,-2.15,-0.45,-0.45,2.57,-0.85,-0.43,2.62,3.82,-2.45,-2.05}},
{"CDL3LINESTRIKE", {0,2.25,-0.25,2,1.25,2,0.5,1.25,2,2,1.75,2,2.25,5,1.5,4.25,4,6.25,3.75,6,6.3,9.3,-0.5,-0.5}},
{"CDL3LINESTRIKE", {0,0.75,0,0,-0.5,1.25,-0.5,1,0,1,-0.25,1,0.75,1.5,0.75,1.25,0.75,4.03,0.75,4,4.05,5.25,-3.25,-0.25}},
{"CDL3LINESTRIKE", {0,1.5,-0.25,1,1,2,0.5,2,1,2.25,0.5,2,2.25,3.75,1.75,3.25,2.25,5,1.75,4.25,5.25,5.65,0.77,0.8}},
{"CDL3LINESTRIKE", {0,2.75,-0.5,2,2.75,3,1.75,1.75,1.75,2,1.75,1.75,2,2.75,1.5,2.5,2.7,4,2.67,4,5,5,1.5,1.5}},
{"CDL3LINESTRIKE", {0,2.25,-0.5,1.5,0.75,0.75,-1.5,-1.25,-2.25,-1.75,-4.25,-3.75,-3,-3,-4.5,-4.5,-4.8,-1.8,-4.82,-4.82,-5.8,-1.45,-5.8,-1.45}},
{"CDL3LINESTRIKE", {0,0.5,-1.75,-1,-1,1.25,-1.25,1,0.5,0.5,-0.5,0,0,1.2,-1.03,-1,0,3,-1.48,-1.08,-1.5,2.73,-4.5,2.7}},
{"CDL3LINESTRIKE", {0,0.25,-1.25,-1,-0.25,0.25,-2.25,-1.75,-2.75,-2.25,-3.75,-3.25,-3,-2.5,-3.5,-3.5,-3,-2.5,-5.5,-5,-5.5,-2.7,-5.53,-2.7}},
{"CDL3LINESTRIKE", {0,1.2,-2.5,-2.5,-2.45,-2.45,-3.45,-3.45,-3.45,-0.45,-3.5,-3.5,-3,-2.5,-4.75,-4,-3.5,-2.75,-4.75,-4.5,-5,-2.5,-5.75,-3}},
{"CDL3LINESTRIKE", {0,1.5,-0.5,1,1.5,2,-0.75,-0.5,0.25,1,-1.25,-0.75,-0.75,-0.25,-2,-1.75,-1,-0.75,-2,-2,-2.3,4.05,-2.3,1.05}},
{"CDL3LINESTRIKE", {0,0.5,-2.75,-2,-2.3,-2.27,-4,-4,-2.27,-1.07,-5.4,-5.37,-2.75,-2.75,-8.4,-5.4,-2.25,-1.05,-8.45,-5.45,-8.75,1.48,-9.95,1.45}},
{"CDL3OUTSIDE", {0,0,-1.5,-1.5,-2.25,-1.75,-4.5,-4.25,-4.25,-4,-5,-4.75,-4,-4,-5.5,-5,-5.55,-0.15,-8.55,-3.15,0.15,1.88,-2.85,1.85}},
{"CDL3OUTSIDE", {0,3.02,-3,0.02,1.05,2.25,0.15,0.55,0.6,0.6,-4.03,-4,-3.03,-3.03,-5.83,-5.43,-5.78,0.65,-5.78,0.65,0.9,3.15,0.9,2.4}},
{"CDL3OUTSIDE", {0,0.4,-0.02,-0.02,0.4,0.4,-2.95,-2.55,2.25,2.65,0.15,0.55,-0.45,-0.42,-0.87,-0.47,-0.52,0.5,-0.55,0.1,1.1,1.85,0.35,1.6}},
{"CDL3OUTSIDE", {0,1.25,-0.5,1,2,2.25,0.5,1,1.25,3.25,1,3.25,4.25,4.75,2.75,3.25,2.5,4.75,2.25,4.5,4.25,7,3.75,6.25}},
{"CDL3OUTSIDE", {0,3,-1.5,-1.1,2,2.03,-0.8,-0.4,-0.9,0.6,-1.15,0.6,-0.15,0.1,-1.9,-1.65,-1.9,0.6,-2.15,0.1,-0.4,1.6,-0.9,1.1}},
{"CDL3OUTSIDE", {0,3.6,0,2.4,1.25,1.65,-0.03,0,1.2,2.4,-0.35,0.05,2.47,2.47,1.37,1.4,1.15,3.4,0.4,3.15,2.65,3.65,1.9,3.65}},
{"CDL3OUTSIDE", {0,1.2,-1,-1,-1.5,0.25,-2,0,1,1.5,1,1,0.5,1.25,0,0.5,1.25,1.25,0.25,0.25,0.25,1,-1.25,-1.25}},
{"CDL3OUTSIDE", {0,0.5,-1,-1,-1.5,-0.5,-1.75,-1,-0.25,0,-2.25,-2.25,-1.5,0.75,-1.75,0,1.5,2.7,-5.45,-4.25,-4.3,-3.08,-7.3,-4.28}},
{"CDL3OUTSIDE", {0,0.25,-0.5,-0.5,0.25,1,-0.25,-0.25,0.75,1.25,-1.25,-1.25,3.25,6.27,2.85,3.27,3.85,3.88,0,1.2,0,0,-0.3,-0.3}},
{"CDL3OUTSIDE", {0,2.43,-0.4,2.4,-0.35,1.2,-1.55,0,0,5.2,-3,2.2,-2.7,0.32,-3.9,-2.68,-0.18,-0.15,-3.4,-3,-4,-3.25,-5.5,-5.5}},
{"CDL3OUTSIDE", {0,0.5,-1.5,-1,-2,-1,-2,-1.5,-1.5,-1,-2,-2,24.05,24.8,23.8,24.55,24.8,25.3,22.8,22.8,21.8,21.8,19.05,19.8}},
{"CDL3OUTSIDE", {0,1.75,-0.25,1,0,0.75,-2.75,-2,-1.25,-0.5,-2.25,-2.25,-2.75,-1.25,-3.25,-1.75,-1.5,-1.25,-3.25,-3,-3.5,-3.5,-3.75,-3.5}},
{"CDL3STARSINSOUTH", {0,1,-0.75,1,1,1,1,1,1,1.03,-2.02,0.98,1.03,4.03,-4.37,-1.37,-0.37,-0.37,-4.32,-1.32,-0.67,-0.64,-1.35,-1.32}},
{"CDL3STARSINSOUTH", {0,0.75,-0.5,-0.5,-1.5,-1.5,-2.15,-1.75,-1.8,3.15,-4.8,2.75,-1.2,1.8,-7,-4,-1.25,1.75,-5.95,-2.95,-1.55,-1.55,-1.57,-1.57}},
{"CDL3STARSINSOUTH", {0,0,-1,-1,-1,1.25,-1.5,1,1.25,3.25,0.75,3.25,0.8,0.8,-4.8,-1.8,0.8,0.8,-3.2,-0.2,-0.15,-0.15,-1.2,-1.2}},
{"CDL3STARSINSOUTH", {0,0,-3.1,-3.1,-3.05,-2.1,-3.45,-2.5,-3.1,-0.08,-3.5,-3.08,-3.08,-2.68,-8.48,-5.48,-2.8,0.2,-7.5,-4.5,-4.25,-4.25,-4.75,-4.75}},
{"CDL3STARSINSOUTH", {0,0,-1.78,-1.75,-2.08,3.05,-2.08,3.05,-2.08,-0.85,-3.28,-2.05,-2.1,-1.7,-6.8,-3.8,-2,-0.8,-6,-3,-3.5,-3.5,-4.5,-4.5}},
{"CDL3STARSINSOUTH", {0,4.15,-0.4,2.95,0.05,0.7,0.05,0.7,0.05,3.05,0,0,0,1.2,-5.4,-2.4,0,3,-4,-1,-0.25,-0.25,-0.75,-0.75}},
{"CDL3WHITESOLDIERS", {0,0.25,-2.25,-1.5,-0.75,-0.25,-3.25,-2.75,-3,-1.25,-3.75,-2,-1.5,0.5,-1.75,0.5,1,3,0.75,3,2,4,1.75,4}},
{"CDL3WHITESOLDIERS", {0,1.25,0,1,0.25,2.75,-0.25,2.25,3,5,3,4.5,3.75,5.75,3.75,5.75,5.75,7,5.5,6.75,6,8,5.75,8}},
{"CDL3WHITESOLDIERS", {0,0.03,-3.8,-0.8,0.03,1.15,-1.17,1.15,-1.22,2.9,-4.22,1.7,0.95,1.95,0.45,1.95,1.2,3.2,0.45,3.2,3.45,4.95,3.2,4.95}},
{"CDL3WHITESOLDIERS", {0,1.2,-4.95,-3.75,-4.75,-4.75,-6,-5.25,-5.5,-5.5,-7,-6.5,-5.75,-4.75,-6.5,-4.75,-5,-3,-5.25,-3,-2.75,-0.75,-3,-0.75}},
{"CDL3WHITESOLDIERS", {0,0,-2.5,-2,-1.5,-1,-2.75,-2.5,-2.75,-2.5,-5.25,-4.75,-4.75,-2.75,-5,-2.75,-3.75,-2.25,-4.5,-2.25,-2.5,-0.5,-2.5,-0.5}},
{"CDL3WHITESOLDIERS", {0,1.22,-3,0.02,-0.28,0.92,-3.41,-3.38,-5.88,-0.05,-5.88,-0.08,-0.38,-0.08,-1.58,-0.08,0.42,1.17,0.17,0.92,0.67,2.67,-0.08,2.67}},
{"CDLABANDONEDBABY", {0,0.5,-1.75,-1,-1.5,-1,-3,-3,-1,0.03,-1.03,0,0.75,1.95,-3.98,-0.98,-6.48,-6.48,-6.48,-6.48,-3.98,6.25,-4.38,3.25}},
{"CDLABANDONEDBABY", {0,0.03,-2.9,-1.7,1,1,-0.83,-0.8,1.05,1.47,0.65,1.07,3.15,3.15,0.65,1.05,0.55,0.55,0.05,0.55,1.3,4.05,1.3,3.3}},
{"CDLABANDONEDBABY", {0,2.25,0,1.5,1.7,2,1.3,2,1.75,7.85,1.75,4.85,4.55,4.55,1.7,1.7,0,0,-0.02,-0.02,1.7,8.2,0.5,7.8}},
{"CDLABANDONEDBABY", {0,0.75,-1.75,-1.5,-1.5,-0.75,-2.75,-2.5,-4,3.75,-4,0.75,-0.25,-0.25,-2.65,-2.65,-5.5,-5,-6.25,-5.5,-3,1.5,-4.2,-1.5}},
{"CDLABANDONEDBABY", {0,1.75,-0.5,1.5,1.75,1.75,-0.5,-0.25,-3.5,-1.5,-6.5,-1.5,-0.75,2.25,-2.45,-2.45,-3.45,-3.45,-3.47,-3.47,12.6,14.6,12.35,14.6}},
{"CDLABANDONEDBABY", {0,0,-1.9,-0.7,-1.9,-1.87,-7.3,-4.3,-1.95,1.05,-7.35,-4.35,-4.1,-3.6,-6.1,-6.1,-7.1,-6.85,-7.85,-7.1,-6.1,-3.35,-6.6,-4.1}},
{"CDLABANDONEDBABY", {0,1.2,-1.35,-0.15,-2.47,-1.47,-2.5,-1.47,-0.72,-0.72,-1.72,-1.22,-0.97,1.03,-1.22,1.03,2.03,2.28,1.53,2.03,1.03,1.03,-0.22,0.03}},
{"CDLABANDONEDBABY", {0,0.5,-0.75,-0.5,0,0.75,-2.25,-2,-1.5,-1,-2.25,-2,-1.75,-0.25,-1.75,-0.25,0,0,0,0,-1.25,-1.25,-4.35,-4.35}},
{"CDLABANDONEDBABY", {0,0.4,-4.35,-1.35,-1.6,-1.6,-2.6,-2.6,-3.6,-2.1,-3.6,-2.1,-1.6,0.65,-2.35,0.4,0.9,0.9,0.9,0.9,0.15,0.65,-2.6,-1.85}},
{"CDLABANDONEDBABY", {0,0.25,-2.25,-2,-2.75,-2,-3.5,-2.25,-2,-1,-2.5,-1.5,-2.5,-0.5,-2.5,-0.5,0,0.75,0,0,-0.75,-0.25,-3,-2.75}},
{"CDLABANDONEDBABY", {0,1,0,1,0.5,2,0.25,2,2.5,2.75,2,2,3,5.5,2.75,5,6,6.75,6,6,5.25,5.75,2.5,3.25}},
{"CDLABANDONEDBABY", {0,0.25,-2.25,-2,-2.75,-2,-3.25,-2.75,-2.45,0.55,-2.55,-2.55,-0.05,2.35,-3.05,2.35,2.4,2.42,2.4,2.42,-0.08,-0.05,-2.08,-2.05}},
{"CDLADVANCEBLOCK", {0,0.42,0,0.02,-0.3,-0.3,-3.1,-2.7,-0.2,2.23,-0.6,2.2,-0.3,2.23,-0.33,2.2,1.7,2.7,1.45,2.7,2.2,3.2,2.2,3.2}},
{"CDLADVANCEBLOCK", {0,0,-2.25,-2,-2.3,0.83,-2.33,0.8,-2.25,-1.05,-5.27,-2.27,-3.25,3.7,-3.28,3.3,3.4,5.6,3,4.4,4.4,6.13,1.4,6.1}},
{"CDLADVANCEBLOCK", {0,3.75,0,2.55,3.7,3.72,0.7,3.72,3.77,3.77,-0.4,0,-1,4.07,-4,3.67,-0.1,5.57,-0.5,4.37,4.87,7.37,4.62,6.87}},
{"CDLADVANCEBLOCK", {0,8.45,0,7.25,0,3.5,-1.2,3.1,-1.15,1,-4.15,1,-0.9,1.5,-0.9,1.5,1,3.5,-0.2,3.5,4,4.25,4,4}},
{"CDLADVANCEBLOCK", {0,1.03,0,1,0.35,0.75,-9.55,-9.55,-3,-1.78,-3,-2.98,-7.25,0.05,-7.65,0.05,0.8,2.05,0.8,1.8,2.55,3.55,2.55,3.05}},
{"CDLADVANCEBLOCK", {0,0.75,-0.75,0.5,1.5,1.5,0,0,-0.5,-0.25,-1.5,-1,-2,-1,-2.75,-1,-1.25,1.5,-1.5,0.75,0.75,1.75,0,1.75}},
{"CDLBELTHOLD", {0,2.37,-0.4,1.17,3.87,5.07,0.13,3.13,2.13,2.88,1.63,1.63,2.38,3.63,1.88,3.38,2.88,3.13,1.88,1.88,1.13,2.88,0.88,2.63}},
{"CDLBELTHOLD", {0,3,-3.1,-3.1,-3.1,-3.1,-3.85,-3.1,-2.1,-1.1,-2.1,-1.6,-0.6,0.9,-1.35,0.4,0.65,1.4,0.15,1.15,1.65,3.9,1.65,3.15}},
{"CDLBELTHOLD", {0,1.75,0,1,0.5,2.25,0.25,1.5,1.5,2,0.25,0.5,2.5,5.5,-5.25,-2.25,-5.3,-4.1,-5.3,-5.3,-2.8,-0.4,-2.8,-0.4}},
{"CDLBELTHOLD", {0,0.75,-0.75,0,0.25,1.75,-0.25,1.25,1.5,2.5,1.5,2,1.25,1.5,-1,-0.75,-1.5,0.25,-1.75,-0.5,-0.25,1.5,-0.25,0.75}},
{"CDLBELTHOLD", {0,0,-0.75,0,0.5,1.25,-0.5,-0.5,-1.5,-1.5,-2.75,-2.5,-1.5,-1.25,-3.75,-3.5,-3.25,-2,-4,-2.25,-2.25,0.18,-2.28,0.15}},
{"CDLBELTHOLD", {0,0.25,-0.75,0,1,1.5,-1,-0.5,-3.5,1.4,-4.7,1,-3.2,-2.8,-6.22,-3.22,-3.52,-3.52,-6.1,-5.7,-5.7,0.4,-5.7,0}},
{"CDLBELTHOLD", {0,0.5,-2.25,-2,-2,-1.75,-2.75,-2.5,-1.75,-1.75,-3.25,-2.75,-3.3,2.1,-6.3,-0.9,2.4,4.13,-0.6,4.1,1.63,1.66,-4.47,-1.47}},
{"CDLBELTHOLD", {0,0.75,-0.75,0,-0.75,-0.5,-2.25,-2.25,-1.75,-1.25,-3.25,-2.75,-2.25,-1.75,-5,-4.25,-2.2,-2.17,-4.4,-3.2,-3.15,-3.15,-4.75,-4.75}},
{"CDLBELTHOLD", {0,1.5,-0.75,1.5,1,1.75,1,1.5,1.5,2,-1.25,-0.5,-0.5,-0.25,-1.5,-1.5,-0.5,-0.5,-3.25,-2.5,-1.5,-1.5,-5.8,-4.6}},
{"CDLBELTHOLD", {0,0,0,0,1,1.5,0.25,0.5,0.5,1.25,-0.25,1,0,0,-2.25,-1.5,-1.75,1,-1.75,0.25,1.25,1.5,-1,-0.75}},
{"CDLBELTHOLD", {0,0.75,-1.75,-1,-1.5,-1,-1.75,-1,-1.5,-0.75,-1.75,-1.5,-2.25,-1.75,-4,-3.75,-1.25,-1.22,-2.35,-1.95,-2.05,-2.05,-8.15,-5.15}},
{"CDLBELTHOLD", {0,0.5,0,0.5,-0.25,-0.25,-1.5,-0.75,-1.75,-1,-2,-1.25,-0.5,-0.25,-1.25,-1,-0.75,-0.25,-1,-0.75,-1.5,-1.5,-3.5,-3.5}},
{"CDLBREAKAWAY", {0,1.25,-0.75,1,1,1.75,-1.25,-0.5,-1.5,-1,-2.5,-2.5,-2.25,-1.5,-4.5,-3.75,-4.5,-4,-7,-6.5,-1.5,-1,-4.5,-1}},
{"CDLBREAKAWAY", {0,2.25,-0.75,1.5,2.25,3,0.25,0.75,0,0.25,-1.75,-1.5,-0.75,-0.5,-2.25,-2.25,-1.75,-1.5,-3.5,-3.25,-1.8,1.8,-2.2,0.6}},
{"CDLBREAKAWAY", {0,0.25,-1.75,-1.5,-1,-0.75,-2.75,-2,-2.25,-2.25,-4,-3.75,-4.25,-3.5,-6.75,-6.25,-6.5,-6.5,-7,-7,-4.5,-0.9,-4.5,-2.1}},
{"CDLBREAKAWAY", {0,1.75,-0.5,1,2,2.5,-0.25,0.5,-0.5,-0.5,-2,-2,-1.25,-0.75,-2.5,-2.25,-0.8,-0.8,-3.5,-3.5,-3.2,0.25,-3.6,0.25}},
{"CDLBREAKAWAY", {0,0.5,-1,-0.5,0,0,-2.25,-2,-2.5,-2.5,-3.75,-3.5,-3.25,-2.75,-5,-4.25,-3.75,-3,-5.5,-5.25,-2.5,-1.28,-2.53,-2.48}},
{"CDLBREAKAWAY", {0,0.75,-0.5,-0.5,0.5,1,-2.25,-1.5,-2.25,-1.75,-4.75,-4.25,-5.25,-4,-5.75,-4.75,-5.5,-5.25,-7.75,-7.5,-1.73,-0.98,-2.48,-1.73}},
{"CDLBREAKAWAY", {0,0.25,-1,-0.5,-0.5,2,-0.5,1.5,1.75,2.25,1.5,1.75,2.25,4,1.75,3.75,4.25,4.25,3.75,4.25,4.25,4.25,0.5,1.7}},
{"CDLBREAKAWAY", {0,0.25,-0.75,-0.5,-0.75,0.75,-1.5,0.75,1.5,3.75,1,3.5,4.25,5,4.25,4.75,4.55,5.03,4.55,5,4.73,5.93,-1.95,1.05}},
{"CDLBREAKAWAY", {0,0,-4.47,-3.27,-4.27,0.43,-4.27,0.03,2.93,4.33,1.73,3.93,2.93,4.68,2.68,4.43,4.43,5.68,4.43,4.93,4.68,4.93,1.93,2.68}},
{"CDLBREAKAWAY", {0,1.5,-0.5,1.5,1.25,3.75,0.5,3.25,4.25,4.75,3.5,4.75,4.75,6.75,4,6.75,7,9,6.75,8.5,10,10.4,2.55,3.75}},
{"CDLBREAKAWAY", {0,5.4,-0.4,2.4,2.5,5.3,2.5,4.9,5.4,5.9,4.9,5.4,5.65,7.15,5.15,6.65,7.15,7.4,7.15,7.15,6.15,6.65,5.15,5.15}},
{"CDLBREAKAWAY", {0,0.5,-0.25,0.5,0.5,2.75,-0.25,2.5,3.25,5.25,3.25,4.75,4.5,5.75,3.75,5.5,5,6.75,5,6,5,6.2,2.57,2.6}},
{"CDLCLOSINGMARUBOZU", {0,0,-1.5,-1.5,-2.25,-1.75,-4.5,-4.25,-4.25,-4,-5,-4.75,-4,-4,-5.5,-5,-5.55,-0.15,-8.55,-3.15,0.15,1.88,-2.85,1.85}},
{"CDLCLOSINGMARUBOZU", {0,0.25,-1.5,-1,-1.75,-1,-3,-2.25,-1.75,-0.5,-2,-0.75,0.25,2.35,0.22,1.95,2,5.3,2,2.3,1.95,3.65,1.55,3.65}},
{"CDLCLOSINGMARUBOZU", {0,0.75,-2,-1.5,-2,-1.25,-3.75,-3,-3.5,-2.75,-4.25,-4,-3.5,-3,-5.75,-5,-2.95,0.05,-5.45,-4.25,0.35,2.05,-0.85,2.05}},
{"CDLCLOSINGMARUBOZU", {0,0,-2.25,-2,-1.75,-1,-2,-1.75,-1.25,-0.75,-4,-3.25,-4,-1.95,-4,-1.95,0.55,0.55,-4.55,-1.55,-4.55,1.58,-5.75,1.55}},
{"CDLCLOSINGMARUBOZU", {0,1.25,-0.75,1,1,3.43,0.97,3.4,-0.5,-0.47,-1.15,-0.75,-0.8,-0.4,-0.85,-0.82,-0.7,2.3,-5,-3.8,-3.2,1.05,-4.4,1.02}},
{"CDLCLOSINGMARUBOZU", {0,0.25,-0.5,-0.5,0.5,2,0,1.5,2.25,2.5,2.25,2.25,2.75,5.5,2.75,4.75,1.75,1.78,0.3,0.3,0.3,2.48,0.3,2.45}},
{"CDLCLOSINGMARUBOZU", {0,0.25,-1,-1,-0.25,-0.25,-2.5,-2.25,-1.75,-1.5,-2.75,-2.75,-3.75,-3.25,-5.5,-5.25,-5.5,-5.5,-7,-7,-7.75,-7.25,-10,-9.75}},
{"CDLCLOSINGMARUBOZU", {0,0,-1.6,-1.6,-0.85,2.65,-1.25,2.25,3.65,4.05,-2.75,-1.55,-1.6,-1.6,-5.6,-2.6,-2.85,-2.6,-4.1,-3.85,-3.6,-3.1,-5.6,-5.6}},
{"CDLCLOSINGMARUBOZU", {0,0.75,-2.5,-2,-1.5,-0.75,-2.5,-2,-1,-0.25,-1.75,-1.5,-1.75,0.75,-1.75,0.25,0.5,1.25,-1.25,-0.5,-0.5,0,-2.75,-2.5}},
{"CDLCLOSINGMARUBOZU", {0,0.65,0,0.25,2.75,3.78,2.72,3.75,1.72,3.83,0.52,3.83,6.33,6.35,6.33,6.35,5.6,5.85,4.6,4.6,4.1,4.1,3.1,3.1}},
{"CDLCLOSINGMARUBOZU", {0,0.5,0,0,0.5,3,0.25,2.5,2,2,1.25,2,2.5,3.25,1.5,1.5,0.5,0.5,-0.75,-0.5,0.5,0.75,-1.75,-1.5}},
{"CDLCLOSINGMARUBOZU", {0,0.03,-1.45,-1.45,-1.45,0.73,-1.45,0.7,1.03,1.05,0.63,1.05,2.05,2.1,0.85,2.07,5.25,6.75,5.25,6.25,6.75,7.5,5.25,5.25}},
{"CDLCONCEALBABYSWALL", {0,0.25,-2.5,-2,-1.5,-0.5,-2.25,-1,-0.55,-0.55,-1.5,-1.5,-0.6,-0.6,-1.28,-1.25,-2.25,-1.05,-2.67,-2.27,1.22,4.22,-4.25,-3.05}},
{"CDLCONCEALBABYSWALL", {0,0.4,-3.5,-3.1,-2.5,7,-2.5,4,7,7,-2.8,-2.8,-3.55,-3.3,-4.55,-4.55,-4.8,-4.3,-5.55,-5.3,-4.3,-3.8,-6.55,-6.3}},
{"CDLCONCEALBABYSWALL", {0,0.5,-2.75,-2,-2.5,-2.5,-3,-3,2,2,-1.75,-1.75,1.7,1.7,-2.53,-2.5,-2.75,-1.55,-3.78,-3.75,1.65,1.65,-6.45,-5.25}},
{"CDLCONCEALBABYSWALL", {0,0.75,-0.75,-0.5,0.25,3.25,-0.15,0.25,3.55,3.55,0.5,0.5,0.8,0.8,0.78,0.78,0.5,0.9,-0.53,-0.5,-0.2,1,-0.78,-0.75}},
{"CDLCONCEALBABYSWALL", {0,1,-0.5,1,-1.5,-0.8,-1.5,-0.8,-0.75,-0.72,-1.8,-1.8,-0.75,-0.75,-3.28,-3.25,-4.25,-3.05,-4.3,-4.3,-0.8,2.2,-4.45,-3.25}},
{"CDLCONCEALBABYSWALL", {0,1,-0.5,1,0,0,-0.25,0,-0.75,-0.75,-2.25,-2.25,-2.25,-2.25,-4.5,-4.25,-4.75,-4,-5.25,-5.25,-4.5,-3.75,-7,-6.5}},
{"CDLCOUNTERATTACK", {0,0.5,-2,-1.5,0.45,0.85,-4.03,-4,0.85,0.88,-0.75,0.45,0.9,2.1,-0.55,-0.55,3.1,3.1,0.55,0.55,-3.95,0.95,-5.15,0.55}},
{"CDLCOUNTERATTACK", {0,0.25,-0.75,-0.5,-0.75,0.25,-1,-0.25,-0.75,0.5,-1.5,-0.25,-0.25,1.25,-0.75,0.75,0,0.5,-2.25,-1.5,-3.25,1.45,-4.45,-1.55}},
{"CDLCOUNTERATTACK", {0,0,0,0,0,3,-0.02,-0.02,0,0,-1.22,-0.02,-1.27,0.65,-2.47,0.25,0.25,0.65,-3.72,-3.72,-6.22,-0.67,-6.25,-3.67}},
{"CDLCOUNTERATTACK", {0,0.75,-2,-2,-2.5,-2.5,-4,-3.5,-6,-3.2,-6.4,-3.6,-5.95,-5.92,-7.35,-6.95,-2,-2,-10.35,-7.35,-10.3,-6.05,-11.5,-7.25}},
{"CDLCOUNTERATTACK", {0,0.25,-1.75,-1,-2,-0.75,-2,-1.5,-0.5,1,-0.75,1,0.75,1.5,0,0.25,-0.3,-0.27,-4.75,-1.75,-4.25,-1.3,-5.45,-1.7}},
{"CDLCOUNTERATTACK", {0,1.25,0,0.5,0,0.75,-0.5,-0.5,-1.25,0,-1.75,-0.25,-0.25,0.95,-0.9,-0.5,1.25,1.25,-0.4,0,-2.5,1.15,-3.7,-0.05}},
{"CDLCOUNTERATTACK", {0,0.5,-2.5,-2,-3,-2.25,-3.25,-2.5,-2.5,-2.5,-2.75,-2.5,-2,-1,-2.5,-1.5,-3.5,0.45,-3.5,-2.55,-0.05,-0.02,-2.9,-2.5}},
{"CDLCOUNTERATTACK", {0,0.5,-1.25,-1,0,0.25,-0.5,-0.5,-1.5,-1.5,-4,-3.5,-3,-0.75,-3.75,-1,-3.8,2,-3.8,2,4.5,4.9,1.6,2}},
{"CDLCOUNTERATTACK", {0,2,-0.5,1.5,2,2.5,1,1,0,2,0,2,2.75,3.5,1.5,2.25,1.75,7.15,1.75,4.15,7.15,8.35,4.2,4.2}},
{"CDLCOUNTERATTACK", {0,0.5,-1.25,-0.5,-1.25,0,-1.5,-0.75,-1.25,0.25,-1.5,-0.25,-0.25,1,-1,0.75,0.75,3.15,0.75,3.15,4.15,4.15,3.07,3.1}},
{"CDLCOUNTERATTACK", {0,0,-2.5,-2,-2.75,-1.75,-3.25,-1.75,2.55,3.75,-0.03,0,-2.53,1.17,-5.53,-0.03,-2.53,-0.13,-3.73,-0.13,2.85,2.85,-3.13,-0.13}},
{"CDLCOUNTERATTACK", {0,0.5,-2.5,-2,-3,1.7,-6,-1.3,-5.95,-5.95,-12.05,-9.05,-8.45,-4,-11.45,-4,-11.45,2.5,-11.48,-0.5,2.5,2.9,-0.55,-0.55}},
{"CDLDARKCLOUDCOVER", {0,1.75,-0.5,1.5,2.25,2.75,1.25,1.75,2.75,3.25,2,3.25,2.25,3.78,2.25,3.75,2.25,3.98,2.25,3.95,6.28,7.48,1.35,2.55}},
{"CDLDARKCLOUDCOVER", {0,0.75,-1.25,-0.5,-0.25,1.75,-0.5,1.75,1,1,0.5,1,0,0.75,-0.5,-0.5,0.5,2.25,0.25,2,2.75,3,0.5,0.75}},
{"CDLDARKCLOUDCOVER", {0,0.75,-0.5,0.5,1.5,2,1,2,1.75,4.5,1.5,3.75,4.5,6.25,4.25,6,5,7,4.75,6.5,7.5,8.25,5.25,5.5}},
{"CDLDARKCLOUDCOVER", {0,1.25,-0.75,0.5,0.25,0.5,-1.25,-0.75,0,0.5,-0.75,0.5,1.25,1.75,1,1.25,0.95,4.08,-2.05,4.05,5.08,5.11,0.75,1.95}},
{"CDLDARKCLOUDCOVER", {0,0,-2.25,-1.5,-2,-1,-2.75,-1.5,-1,-0.25,-1.5,-0.5,-1.25,1,-1.75,0.25,0.75,2.75,0.5,2.25,3,3,0.5,1}},
{"CDLDARKCLOUDCOVER", {0,2.25,-0.75,2,2,4.4,-1,4.4,1.9,4.9,-2.08,-2.05,-2.08,-2.05,-5.18,-5.18,-5.18,2.3,-5.58,1.9,5.2,5.2,-3.05,-3.05}},
{"CDLDOJI", {0,1.5,-0.5,1.5,2,2.25,0.25,1,1,2.5,1,2.5,1.05,2.55,1.02,2.55,0.05,2.45,0.02,2.45,2.45,5.6,1.25,2.6}},
{"CDLDOJI", {0,0.25,-1.25,-1,-0.75,-0.25,-2.75,-2.75,-3.5,-2.75,-5.5,-5.5,-4.75,-3.25,-5.5,-3.25,-3.25,-1.75,-3.5,-1.75,-2.75,-2.75,-2.75,-2.75}},
{"CDLDOJI", {0,0.75,-1.25,-0.5,-1,0,-1.5,0,-0.5,-0.5,-2.5,-2,-2.25,-2.25,-3.5,-3.25,-3.25,-3.25,-3.5,-3.25,-3.5,-3.5,-3.5,-3.5}},
{"CDLDOJI", {0,0.5,-0.75,0,0,1,-0.75,1,1,1.25,-1.5,-1,-2,-2,-2.5,-2.5,-3,-3,-5.25,-5,-4.75,-4,-5,-4.75}},
{"CDLDOJI", {0,4.7,-3,1.7,0.95,3.2,0.7,2.95,2.45,4.95,1.95,4.45,3.95,4.45,3.95,3.95,4.45,6.95,4.2,6.45,5.95,5.95,5.2,5.95}},
{"CDLDOJI", {0,0.5,-2,-1.5,-4.5,0.4,-5.7,0,-4.2,-3.8,-7.22,-4.22,-4.52,-4.52,-7.1,-6.7,-6.7,-0.6,-6.7,-1,-4.52,-1.5,-7.52,-4.5}},
{"CDLDOJISTAR", {0,0.4,0,0,-0.25,2.88,-1.45,2.85,-1.45,1.3,-1.48,0.1,-0.5,-0.5,-3.98,-3.95,-1.48,-1.45,-4.38,-3.18,-3.68,-2.93,-4.43,-3.68}},
{"CDLDOJISTAR", {0,0.5,-1,-1,-1.5,-0.5,-1.75,-1,-0.25,0,-2.25,-2.25,-1.5,0.75,-1.75,0,1.5,2.7,-5.45,-4.25,-4.3,-3.08,-7.3,-4.28}},
{"CDLDOJISTAR", {0,0.5,-0.5,0,-0.25,-0.25,-2,-1.75,-1.95,-1.55,-1.97,-1.97,-1.55,-1.55,-4.9,-4.5,0.3,0.7,-1.8,-1.4,-2.4,-2.37,-2.82,-2.42}},
{"CDLDOJISTAR", {0,1,0,1,1.75,2.5,-0.75,-0.25,0,0.5,-0.25,0,0.5,0.75,-0.75,0,-0.75,-0.5,-2.75,-2.25,-2.75,-2.5,-3.25,-2.75}},
{"CDLDOJISTAR", {0,0.03,-1.55,-0.35,0.03,3.03,-1.05,-1.05,-0.05,0.35,-4.75,-1.75,-0.05,1.35,-0.08,1.35,0.3,0.33,-1.75,-1.75,-2.25,-1.5,-2.25,-2.25}},
{"CDLDOJISTAR", {0,0.03,-0.4,0,-2.47,2.15,-3.67,0.95,0.45,0.7,-0.8,-0.05,0.95,1.2,0.2,0.95,0.95,1.7,-1.3,-1.05,-1.55,-1.3,-1.8,-1.55}},
{"CDLDOJISTAR", {0,2.4,0,2.4,2.4,2.8,1.7,2.1,-2.5,-1.5,-2.5,-1.5,2.4,3.6,1.4,1.4,0.9,2.65,0.4,2.4,3.4,3.9,3.4,3.4}},
{"CDLDOJISTAR", {0,0.25,-1.5,-1.5,-0.75,0.25,-0.75,0.25,0.75,1.5,0,1.25,0.75,2.75,0.75,2.25,3.25,5.25,2.5,5.25,5.5,6.25,5.5,5.5}},
{"CDLDOJISTAR", {0,1.78,-0.4,1.78,0.25,2.1,-0.95,2.1,0.3,0.32,0.3,0.32,-0.68,-0.68,-2.93,-2.18,-2.93,-0.68,-3.43,-0.93,0.07,0.57,0.07,0.07}},
{"CDLDOJISTAR", {0,1.4,0,1,-0.05,-0.02,-1.75,-1.75,-2.25,-2.25,-3.5,-3.25,-4,-3.25,-5,-4.5,-5,-2.25,-5.25,-3,-2.25,-2,-3,-2.25}},
{"CDLDOJISTAR", {0,1.25,-0.25,0.5,1,2.75,0.5,2.5,2.5,3,2.5,2.5,1.5,2,1,1.5,1.75,4.5,1.25,3.75,4,4,3.25,4}},
{"CDLDOJISTAR", {0,0.75,-1,-0.5,0.5,0.5,-1.5,-1,1.5,4.52,0.3,1.52,7.02,7.02,-2.2,-1.8,-1.8,1.52,-3,1.52,4.02,4.07,4.02,4.04}},
{"CDLDRAGONFLYDOJI", {0,0.75,-0.5,0,0.75,0.75,-0.25,-0.25,-0.25,0.5,-1.75,-1.75,-2.25,-1.75,-4.75,-4.25,-5.25,-4.5,-5.5,-4.75,-4.75,-4.75,-5,-4.75}},
{"CDLDRAGONFLYDOJI", {0,0,-1.75,-1,-2,0.25,-2.5,0,-1,0.75,-1.25,0.5,1.25,1.25,0.75,1.25,1.75,2.5,0,0.75,1.25,1.25,1,1.25}},
{"CDLDRAGONFLYDOJI", {0,0.5,0,0,-0.25,0,-1.75,-1.75,-2.75,-2.5,-4.5,-4.25,-3.75,-3.5,-5,-4.75,-4.25,-4,-5.5,-5.25,-4.5,-4.25,-5.25,-4.5}},
{"CDLDRAGONFLYDOJI", {0,0.5,-1.75,-1.5,-0.5,2.25,-1.25,1.5,0.5,0.75,-1.25,-1,0,2.25,-0.75,1.5,1.25,1.5,-0.75,-0.25,0.5,0.75,0,0.5}},
{"CDLDRAGONFLYDOJI", {0,0.75,-0.25,0.5,0.75,1.25,-1.25,-1.25,-2.25,-2.25,-5,-4.25,-3.25,-2.5,-4,-3.75,-2.75,-1.25,-3.25,-1.75,-2.25,-2.25,-2.75,-2.25}},
{"CDLDRAGONFLYDOJI", {0,0.75,-0.75,-0.5,-0.25,0.5,-0.25,-0.25,0.75,2.5,0.5,2.25,0,0,-3.4,-3,-2.95,-2.5,-2.98,-2.5,-2.93,-2.9,-4.2,-3}},
{"CDLENGULFING", {0,0.5,-1.75,-1.5,-1.75,-1.75,-3.25,-3.25,-4,-3.5,-6.25,-6,-6,-5.75,-6.75,-6.5,-5.75,-5.75,-7.25,-6.75,-7.3,-1.9,-10.3,-4.9}},
{"CDLENGULFING", {0,1.73,-1.2,1.7,0.7,3.1,0.67,3.1,0.4,2.87,-2.6,1.67,0,3.97,-0.03,0.97,0.72,0.97,-0.03,0.22,-0.78,1.47,-1.53,1.22}},
{"CDLENGULFING", {0,0.5,-0.75,0,-0.75,0.5,-1.5,0.25,-0.5,0.75,-1,0.5,-1,1.9,-4,0.7,3.2,3.2,-0.4,0.8,-1,5.4,-1.03,4.2}},
{"CDLENGULFING", {0,0.75,-0.25,0.5,-0.3,0.9,-0.3,0.5,0.95,1.35,0.75,0.75,0.8,4.4,0.8,3.2,1.4,1.4,-5.8,-2.8,-8.3,3.2,-8.3,3.2}},
{"CDLENGULFING", {0,6.52,-1.2,3.52,3.22,6.57,3.22,6.57,6.57,7.52,6.17,7.52,8.52,9.27,7.52,8.02,7.52,8.02,6.52,6.52,6.52,8.52,5.77,8.52}},
{"CDLENGULFING", {0,0,-2,-2,-2.75,-2.75,-4.25,-3.75,-5.25,-1.75,-5.25,-2.15,-1.25,-0.83,-1.25,-1.23,-4.55,-1.55,-5.65,-5.25,-6.25,-4.52,-6.25,-4.55}},
{"CDLENGULFING", {0,1,0,1,4.9,6.1,3.9,3.9,3.4,5.15,2.9,4.9,5.9,6.4,5.9,5.9,5.4,6.15,4.9,5.4,6.15,6.15,5.15,5.15}},
{"CDLENGULFING", {0,1,-0.75,0.5,-0.25,0,-2.25,-1.75,-2,-0.5,-2.75,-1,-1.5,0,-2.25,-0.5,-0.75,-0.25,-1.5,-0.25,0.25,0.5,-1.25,-0.75}},
{"CDLENGULFING", {0,0.5,-1.75,-1,-0.25,1.75,-0.25,1.25,0.75,3.25,0,2.75,2.25,3,2.25,2.75,-2.75,-2.35,-2.78,-2.75,-2.75,-1.55,-5.15,-5.15}},
{"CDLENGULFING", {0,6.8,-3,5.6,5.1,5.1,3.85,4.1,3.35,3.85,2.1,2.35,2.85,3.1,2.35,2.85,3.1,4.85,3.1,4.1,4.6,5.1,2.6,2.6}},
{"CDLENGULFING", {0,6.7,0,6.3,9.4,9.4,3.3,3.3,3.55,3.8,1.3,1.55,0.8,1.8,0.05,1.3,1.05,1.3,0.8,1.05,1.55,2.3,-0.45,-0.45}},
{"CDLENGULFING", {0,1.25,-0.25,0.5,0,0.25,-1,-1,-0.5,0,-1.75,-1,-2,-0.25,-2.5,-0.5,-0.75,-0.25,-1.25,-0.75,-0.75,-0.75,-2.5,-2.25}},
{"CDLEVENINGDOJISTAR", {0,2.5,0,2,2,2.25,1.5,1.5,2.5,2.75,2,2.5,1.5,6.9,1.47,3.9,6.9,6.93,6.87,6.9,3.5,3.9,1.5,1.5}},
{"CDLEVENINGDOJISTAR", {0,0.03,-0.78,-0.75,-1,-1,-3.4,-3.4,-3.1,-1.9,-3.13,-3.1,5.44,7.44,5.44,7.44,7.94,8.69,7.44,7.94,7.19,7.94,4.69,5.19}},
{"CDLEVENINGDOJISTAR", {0,1.75,-0.25,1.5,0.75,3,0,2.25,1.5,2,-0.25,0,-0.25,1.48,-0.25,1.45,1.75,2.95,0.53,1.73,2.7,2.7,0.75,0.75}},
{"CDLEVENINGDOJISTAR", {0,0,-2.8,-2.4,-2.48,-2.48,-2.78,-2.75,-0.2,-0.2,-0.75,-0.75,0.25,2.5,-0.25,1.75,2.25,2.75,2,2.25,1.5,1.5,-0.5,0}},
{"CDLEVENINGDOJISTAR", {0,0,-1.5,-1,-1.25,0,-1.25,-0.75,-1,-1,-1.75,-1,-0.75,0.25,-1,0.25,1.25,2,0.5,1.25,0.95,3.95,-0.75,-0.75}},
{"CDLEVENINGDOJISTAR", {0,0.25,-2.75,-2,-0.3,0.1,-2,-2,-0.25,0.95,-1.5,-0.3,-0.55,1.88,-3.55,1.85,4.35,4.35,3.13,4.33,2.13,2.13,-0.67,-0.27}},
{"CDLEVENINGSTAR", {0,0,0,0,-1,-0.75,-3.75,-3,-3.75,-2,-3.75,-2.75,-2,0.25,-2.5,-0.5,2.2,2.45,0.95,1.2,0.2,1.4,-4.15,-2.95}},
{"CDLEVENINGSTAR", {0,0,-1.5,-1.5,-2,-1.5,-3.25,-3,-3.5,-3.25,-5.5,-5,-4.75,-2.25,-5.5,-2.75,-2.25,-1.5,-2.5,-1.75,-2.25,-2.25,-4.25,-3.75}},
{"CDLEVENINGSTAR", {0,2.5,-0.5,2,3,5.25,2.75,5,5.75,7.75,5.5,7.75,8.75,11.25,8.25,10.75,12.25,12.28,11.27,11.3,13.8,13.8,6.25,6.25}},
{"CDLEVENINGSTAR", {0,0.25,-0.5,0,0.25,3,-0.5,2.25,-4.22,-1.72,-4.72,-2.22,-7.22,-1.19,-7.22,-1.22,4,4.05,2.8,4.02,3.7,4.9,-6.42,-5.22}},
{"CDLEVENINGSTAR", {0,0,-0.25,0,0.75,2,0.75,1.25,2.25,2.25,1.5,1.75,1.75,4.5,1.5,3.75,4.25,7.27,3.05,4.27,4.77,7.77,1.22,1.25}},
{"CDLEVENINGSTAR", {0,0.25,-2.25,-1.5,-0.5,0.25,-1.5,-1.5,-1,-0.25,-1.5,-1.5,-1.5,0.9,-1.53,0.9,1.2,1.62,-1.8,1.22,0.92,3.92,-2.68,-1.48}},
{"CDLGAPSIDESIDEWHITE", {0,3.1,0,3.1,3.15,4.35,-2.25,0.75,1.05,3.15,1.05,2.75,3.5,4,3.5,3.5,4.5,5.25,4.25,5,4.5,5,3.75,5}},
{"CDLGAPSIDESIDEWHITE", {0,0.5,-0.25,0,-4.45,-3.25,-6.18,-6.15,-6.18,-1,-6.18,-2.2,-6.13,-2.13,-7.33,-5.13,-3.2,-2.2,-4.4,-2.2,-3.2,-2.47,-3.2,-2.5}},
{"CDLGAPSIDESIDEWHITE", {0,1.2,-3.6,-2.4,-3.55,-3.15,-6.68,-6.65,-2.85,1.2,-2.85,1.2,1.95,2.95,1.95,2.95,3.95,4.45,3.95,4.45,3.95,5.7,3.2,4.95}},
{"CDLGAPSIDESIDEWHITE", {0,2.25,-0.75,1.5,2.5,3.25,0.75,1,-3.25,-2,-3.25,-2.75,-2.25,-2.25,-7.2,-6,-1.25,2.35,-1.25,1.15,-1.2,1.2,-1.6,1.2}},
{"CDLGAPSIDESIDEWHITE", {0,1,-0.5,0.5,-0.25,0.25,-2,-1.25,-0.25,0.75,-0.75,0.75,0,0.75,-2,-1.5,0.75,1.75,-2.25,1.75,0.8,2.95,0.4,1.75}},
{"CDLGAPSIDESIDEWHITE", {0,0.02,-0.4,0.02,0.32,1.52,-0.38,-0.35,-0.08,2.92,-2.48,-2.48,-0.25,-0.25,-3.35,-0.35,0.65,1.65,0.4,1.65,0.65,2.4,0.15,1.65}},
{"CDLGAPSIDESIDEWHITE", {0,0.75,-0.5,-0.5,-1.25,-0.5,-3.5,-3.25,-2.5,-2,-5,-4.5,-3.75,-2,-3.75,-2.75,-5.25,-3.75,-5.25,-4.95,-5.25,-3.7,-5.25,-4.9}},
{"CDLGAPSIDESIDEWHITE", {0,2.75,-0.25,2,-0.2,0.08,-0.6,0.05,-0.95,3.05,-0.95,0.05,3.05,6.05,-2.35,0.65,-2.05,0.25,-2.45,0.25,-1.95,0.48,-4.95,0.45}},
{"CDLGAPSIDESIDEWHITE", {0,0.25,-1.25,-1,0.55,3.55,-0.45,-0.45,0.55,2.8,0.55,2.55,1.55,1.55,0.05,0.55,0.05,0.3,0.05,0.05,0.05,0.3,-0.7,0.05}},
{"CDLGAPSIDESIDEWHITE", {0,0.75,-0.75,0,1.75,2.95,-2.75,-2.75,-0.25,3.3,-1.45,2.9,-1.45,-1.45,-2.73,-2.7,-5.2,-2.35,-5.2,-2.75,-5.2,-2.8,-5.2,-2.8}},
{"CDLGAPSIDESIDEWHITE", {0,1,0,1,1.25,2.25,1.25,2.25,-2.2,0.55,-2.7,-0.2,0.8,0.8,-0.45,0.3,0.05,0.8,-0.45,0.05,0.05,0.05,0.05,0.05}},
{"CDLGAPSIDESIDEWHITE", {0,0.5,-1.75,-1,-0.5,-0.5,-2,-2,-2.75,-2.5,-4.25,-4.25,-5.25,-5,-8,-7.25,-8,-7.25,-8.75,-7.5,-8,-6.1,-8,-7.3}},
{"CDLGRAVESTONEDOJI", {0,2.4,0,2.4,2.4,2.8,1.7,2.1,-2.5,-1.5,-2.5,-1.5,2.4,3.6,1.4,1.4,0.9,2.65,0.4,2.4,3.4,3.9,3.4,3.4}},
{"CDLGRAVESTONEDOJI", {0,0.75,-2.25,-2,-1.25,0.5,-1.75,0.25,0.25,0.5,-1,-0.75,-1.25,-0.75,-2,-1.25,-3.75,-2.55,-6.55,-6.15,-6.15,-4.95,-6.17,-6.17}},
{"CDLGRAVESTONEDOJI", {0,1,0,0.5,1.5,2,-0.25,0.5,1.25,3.25,1.25,2.75,2.25,4.75,1.5,4.25,3.75,4.5,3.75,4.25,-1.25,-0.85,-1.28,-1.25}},
{"CDLGRAVESTONEDOJI", {0,2.25,-0.5,1.5,1.25,3.5,0.5,3.25,3.25,5,2.75,4.75,2.75,5.15,-0.25,5.15,0,9,0,6,2.5,3.95,2.5,2.75}},
{"CDLGRAVESTONEDOJI", {0,2.43,-0.03,2.4,-1.5,-1.47,-2.15,-1.75,-1.8,-1.4,-1.85,-1.82,-1.7,1.3,-6,-4.8,-4.2,0.05,-5.4,0.02,-0.48,-0.23,-0.48,-0.48}},
{"CDLGRAVESTONEDOJI", {0,2.18,0,2.15,2.48,2.5,2.08,2.5,3.5,3.55,2.3,3.52,6.7,8.2,6.7,7.7,8.2,8.95,6.7,6.7,6.45,6.7,6.45,6.45}},
{"CDLHAMMER", {0,1.25,0,1,0,3,-0.05,-0.02,4,5.03,4,5,1,7.1,1,4.1,4.05,10.1,3.65,7.1,4.6,4.6,2.3,3.5}},
{"CDLHAMMER", {0,2,-0.5,2,1.25,2.75,1,2.75,2.5,2.75,1.75,2.5,1.5,2,0.25,1,1.75,2.5,1.25,1.75,1.25,1.75,0.5,1.75}},
{"CDLHAMMER", {0,0.5,-0.5,0,-1,-1,-1.5,-1.5,-0.5,-0.5,-1.5,-1,-1.5,-1.25,-3.25,-3,-2.75,-2,-3,-2.75,-3.75,-3.75,-4.5,-3.75}},
{"CDLHAMMER", {0,2.25,-0.25,2,1.25,3,0.75,2.25,1.75,1.75,0.25,0.25,0,0.5,-1,-0.5,-1,-0.75,-3.5,-3,-3.75,-3.75,-4,-3.75}},
{"CDLHAMMER", {0,0.25,-2,-1.5,-2.5,-1.75,-4.75,-4,-3.75,-2.75,-4.25,-3.25,-2.5,-1.75,-3.5,-3,-3.75,-3.25,-4,-3.25,-4.25,-3.75,-5,-3.75}},
{"CDLHAMMER", {0,0.75,-0.75,-0.5,-0.25,0.5,-0.25,-0.25,0.75,2.5,0.5,2.25,0,0,-3.4,-3,-2.95,-2.5,-2.98,-2.5,-2.93,-2.9,-4.2,-3}},
{"CDLHANGINGMAN", {0,0.75,-0.5,0,0.75,0.75,-0.25,-0.25,-0.25,0.5,-1.75,-1.75,-2.25,-1.75,-4.75,-4.25,-5.25,-4.5,-5.5,-4.75,-4.75,-4.75,-5,-4.75}},
{"CDLHANGINGMAN", {0,2.25,-0.25,1.5,0.75,1.5,0.75,1.25,1.25,1.25,-0.75,-0.75,-1,-0.5,-3.25,-3,-3.75,-2.25,-4.5,-2.75,-2.25,-2,-3.45,-2}},
{"CDLHANGINGMAN", {0,0.03,-0.7,-0.3,-0.3,1.8,-0.7,1.8,0.8,2.55,0.55,2.3,3.3,4.55,3.3,3.8,3.55,5.8,2.8,5.55,6.3,6.55,5.05,5.8}},
{"CDLHANGINGMAN", {0,0.5,0,0,-1,-0.25,-3,-3,-3.25,-1.75,-3.25,-2.25,-1.25,0,-2,-0.75,-1,0.75,-1.5,0.5,1.25,1.5,0.5,1.25}},
{"CDLHANGINGMAN", {0,0.75,-1,-0.5,-1.25,-0.75,-1.5,-0.75,-1.75,-1.25,-2.5,-1.25,-2,-2,-3.5,-3.5,-4,-3.75,-6,-5.5,-3.75,-3.5,-6.75,-3.5}},
{"CDLHANGINGMAN", {0,1,-0.5,0.5,1,1.5,-1.75,-1,-0.25,0.25,-0.75,0.25,-0.5,1,-1,1,0.25,0.25,-0.75,-0.25,0.5,0.5,-0.25,0.5}},
{"CDLHARAMI", {0,0.25,-0.75,-0.5,0.25,0.25,-1.25,-0.75,-1.3,4.1,-4.3,1.1,4.4,6.13,1.4,6.1,3.63,3.66,-2.47,0.53,0.53,2.9,0.13,1.7}},
{"CDLHARAMI", {0,1.75,-0.5,1,-1,0,-1,0,-2.5,-0.05,-3.7,-0.05,-0.1,2,-0.1,1.6,4.1,5.3,0.3,1.5,3.8,4.2,2.58,3.78}},
{"CDLHARAMI", {0,0,-1.22,-0.02,0,0.4,-6.28,-6.25,0.75,1.15,-0.07,-0.07,-1.07,0.45,-1.07,0.45,-1.07,-1.07,-3.47,-3.47,-2.72,-1.72,-3.47,-1.72}},
{"CDLHARAMI", {0,0.75,-0.5,0,0.75,0.75,-0.25,-0.25,0.5,1,-1.75,-1.5,-1.5,-0.5,-2,-1,-1.25,-1.25,-3.75,-3.25,-2.5,-1.5,-3.25,-2}},
{"CDLHARAMI", {0,1,0,0.5,0.5,1,0,0,26.05,26.8,25.8,26.55,26.8,27.3,24.8,24.8,23.8,23.8,21.05,21.8,22.8,23.55,22.05,22.3}},
{"CDLHARAMI", {0,0.03,-3.1,-3.1,-2.5,-0.4,-3.7,-0.8,-0.8,0.4,-2.02,-0.82,2.95,3.35,-3.4,-2.2,3.35,3.35,0.22,0.25,1,1.5,-0.25,0.5}},
{"CDLHARAMI", {0,4.05,-3,1.05,0.05,0.05,-6.05,-3.05,-2.05,-0.05,-2.3,-0.55,-1.05,-0.3,-3.05,-3.05,-4.05,-1.55,-4.3,-2.05,-2.3,-1.8,-3.05,-2.8}},
{"CDLHARAMI", {0,1.5,-0.5,1,5.45,6.45,5.2,6.45,7.45,7.7,6.7,6.95,6.45,6.7,5.95,6.45,6.45,8.45,5.7,7.95,7.45,7.45,6.45,6.95}},
{"CDLHARAMI", {0,2.25,-0.75,2,3,3,1.75,2.5,3,4.75,3,4.5,4.25,4.75,2.5,3.25,3,5.25,2.75,5,3,4.65,3,4.25}},
{"CDLHARAMI", {0,0.75,0,0.5,1.25,2.75,1.25,2.25,1.25,1.5,0,0.25,0.5,2.25,0.5,2,3,5,2.25,4.5,3.75,4.5,3.75,3.75}},
{"CDLHARAMI", {0,2.43,-0.03,2.4,-1.5,-1.47,-2.15,-1.75,-1.8,-1.4,-1.85,-1.82,-1.7,1.3,-6,-4.8,-4.2,0.05,-5.4,0.02,-0.48,-0.23,-0.48,-0.48}},
{"CDLHARAMI", {0,0.75,-1,-0.5,-0.75,0.5,-1.5,-0.25,-0.5,-0.25,-1.75,-1,-0.7,-0.67,-3.8,-3.8,-3.2,-1.1,-4.4,-1.5,-1.5,-0.3,-2.72,-1.52}},
{"CDLHARAMICROSS", {0,0,-3.48,-3.45,-0.98,-0.95,-3.88,-2.68,-3.18,-2.43,-3.93,-3.18,-2.68,-1.43,-2.68,-2.18,-2.93,-2.68,-5.18,-4.43,-3.68,-2.93,-4.43,-3.68}},
{"CDLHARAMICROSS", {0,0.5,-1,-0.5,-0.3,0.75,-3.3,0.75,-0.6,-0.25,-0.6,-0.25,-0.25,0.15,-0.67,-0.27,-0.27,0.93,-1.7,-1.67,-0.27,0.13,-0.27,-0.27}},
{"CDLHARAMICROSS", {0,0.5,-1,-1,-1.75,-1.25,-3,-2.25,-2.5,-1.75,-3.25,-2.5,-3.25,-2,-3.5,-2.75,-2,-1.25,-4.75,-4,-4,-3.25,-4.5,-4}},
{"CDLHARAMICROSS", {0,3,-1.7,-1.7,-1.7,1.3,-3.8,-3.4,-3.15,-2.9,-4.9,-4.15,-3.15,-2.15,-3.15,-2.15,-1.4,-0.65,-3.9,-3.4,-3.15,-2.65,-3.4,-3.15}},
{"CDLHARAMICROSS", {0,0.75,-1.75,-1,-0.5,0.25,-2,-2,-1.75,-0.5,-1.75,-0.75,-0.75,-0.5,-2.25,-2.25,-2,-2,-4.25,-4,-3.5,-3,-3.75,-3.5}},
{"CDLHARAMICROSS", {0,1.25,-0.5,1,0,2.25,0,2,1.5,1.75,0,0.5,-0.3,1.9,-0.7,0.7,3,6,1.4,1.8,2.55,2.57,1.35,2.57}},
{"CDLHARAMICROSS", {0,0.25,-1.75,-1,-1,0.5,-1.5,0.5,0.25,0.75,-0.5,0.75,-0.25,0.5,-2,-1.25,-3.75,0.75,-4.95,0.75,-3.5,-3.5,-3.52,-3.52}},
{"CDLHARAMICROSS", {0,2.25,-0.5,2,2.55,2.6,2.15,2.57,1.6,1.6,0.07,0.07,4.1,4.5,-1.5,-1.5,-1.55,4.53,-4.55,4.5,-1.2,-1.2,-1.5,-1.5}},
{"CDLHARAMICROSS", {0,1.5,-0.5,1,1.25,2.75,0.75,2.25,2.25,2.5,2,2.25,2,2.75,1.25,2.5,1.25,3.25,1.25,3.25,1.3,1.72,1.3,1.32}},
{"CDLHARAMICROSS", {0,1,-0.5,1,1.75,2.25,0.5,1.25,1.75,2.75,1.5,2.75,1.75,3.25,1.25,3.25,0.95,4.25,0.95,4.25,3.2,3.22,2.8,3.22}},
{"CDLHARAMICROSS", {0,2.43,-0.03,2.4,-1.5,-1.47,-2.15,-1.75,-1.8,-1.4,-1.85,-1.82,-1.7,1.3,-6,-4.8,-4.2,0.05,-5.4,0.02,-0.48,-0.23,-0.48,-0.48}},
{"CDLHARAMICROSS", {0,1.75,-0.25,1.5,-0.75,-0.75,-4.15,-3.75,-3.7,-3.25,-3.73,-3.25,-3.68,-3.65,-4.95,-3.75,-6.15,-3.3,-6.18,-3.3,-3.68,-3.63,-3.68,-3.66}},
{"CDLHIGHWAVE", {0,1.5,-0.5,1.5,2,2.25,0.25,1,1,2.5,1,2.5,1.05,2.55,1.02,2.55,0.05,2.45,0.02,2.45,2.45,5.6,1.25,2.6}},
{"CDLHIGHWAVE", {0,0.75,-2.75,-2,-1.75,1,-1.75,0.25,1.25,2.75,0.75,2.25,6.7,7.7,6.45,7.7,8.7,8.95,7.95,8.2,7.7,7.95,7.2,7.7}},
{"CDLHIGHWAVE", {0,1,-0.75,1,2,2,0.75,1.5,0.5,0.75,0,0.5,1.5,2.75,0.75,2,1,1.5,-0.75,-0.5,-1,-0.75,-1.75,-1}},
{"CDLHIGHWAVE", {0,0.4,-0.65,-0.25,0.4,3.45,0.37,3.05,11.2,13.95,11.2,13.2,12.45,12.7,11.95,12.45,10.2,11.2,9.95,11.2,10.2,10.7,9.95,10.2}},
{"CDLHIGHWAVE", {0,1,0,0.5,0,0.75,-0.5,0,0.75,1.5,-1,-0.25,-0.5,0.25,-2.25,-1.5,-2,-1.5,-2.25,-1.5,-2,-1.25,-2.25,-2}},
{"CDLHIGHWAVE", {0,0.75,-2.25,-2,-2.25,-1.75,-2.25,-1.75,-2.5,-2.5,-3.75,-3,-4,-3.25,-4.25,-3.5,-2.75,-2.5,-3.5,-3.25,-3,-2.5,-3.25,-3}},
{"CDLHIGHWAVE", {0,2.5,-0.25,2,1.25,2,-1,-0.25,0,0.25,0,0,-1,-0.75,-2.75,-2,-1.95,0.08,-1.95,0.05,-0.25,0.15,-0.67,-0.27}},
{"CDLHIGHWAVE", {0,2.25,-0.25,2,1.25,3.5,0.75,2.75,0.75,1.95,-5.35,-2.35,2,2.03,0.72,0.75,-0.28,2.72,-7.55,-6.35,-7.6,-4.6,-8.82,-7.62}},
{"CDLHIGHWAVE", {0,0,-2.75,-2,-2,-2,-3.5,-3,-2.25,-2,-5,-4.25,0,0,-2.25,-1.5,-1.95,-1.93,-2.35,-1.93,-1.63,-1.23,-4.65,-1.65}},
{"CDLHIGHWAVE", {0,1.25,0,1,0,0.25,-2.75,-2,-2,-1.75,-3.75,-3,-2.75,-2,-4.25,-3.75,-2,-0.72,-2.4,-0.75,-0.72,0.48,-3.74,-0.74}},
{"CDLHIGHWAVE", {0,0.75,-0.75,0,0.75,2.75,0.25,2.25,3,3.75,2,2.5,3.75,4.75,3.75,4.75,3.7,3.7,0.75,0.75,3.7,6.7,2.25,3.45}},
{"CDLHIGHWAVE", {0,0.5,-1.5,-1.5,-2.5,-2,-3,-2,-2.75,-1.25,-3.5,-1.75,-1.25,-1.22,-7.35,-4.35,-7.05,-1.8,-7.08,-1.8,-1.8,-0.6,-3.02,-1.82}},
{"CDLHIKKAKE", {0,2.4,-0.03,2.4,2.4,5.55,1.2,2.55,-0.1,3.95,-3.1,0.95,-0.05,-0.05,-6.15,-3.15,-2.15,-0.15,-2.4,-0.65,-1.15,-0.4,-3.15,-3.15}},
{"CDLHIKKAKE", {0,0.25,-1.5,-1.5,-1,-0.5,-2.5,-2,-1.5,-1,-4.25,-3.5,-1.45,-1.42,-3.65,-2.45,-2.4,-2.4,-4,-4,-3.25,0.25,-3.65,-0.15}},
{"CDLHIKKAKE", {0,0.25,-2.75,-2,-1.25,-0.25,-1.75,-0.25,-1.25,-0.75,-3.5,-2.75,-3.75,-3.5,-4,-3.75,-3,-1,-3.25,-1.5,-0.75,1,-1,0.25}},
{"CDLHIKKAKE", {0,3,-0.3,-0.3,2.5,5.5,-1.12,-0.72,4.5,8,4.5,5,4.55,4.95,-1.57,-0.37,-0.12,0.38,-1.12,-1.12,-1.12,-0.37,-3.37,-3.12}},
{"CDLHIKKAKE", {0,0.03,-0.65,-0.25,-0.3,0.1,-0.35,-0.32,-0.2,2.8,-4.5,-3.3,-2.7,1.55,-3.9,1.52,1.02,1.27,1.02,1.02,0.02,0.52,-1.48,-1.48}},
{"CDLHIKKAKE", {0,3,-1.1,-0.7,-1.7,0.03,-1.7,0,0,0,-1.73,-1.7,-1.95,-1.2,-3.2,-2.95,-2.2,-1.95,-2.45,-2.2,-2.7,-2.7,-4.45,-4.2}},
{"CDLHIKKAKE", {0,0,-1.5,-1,-1.55,3.85,-4.55,0.85,4.15,5.88,1.15,5.85,3.38,3.41,-2.72,0.28,0.28,2.65,-0.12,1.45,4.15,5.35,0.41,3.41}},
{"CDLHIKKAKE", {0,0.4,-2.8,-2.4,-0.3,3.3,-0.3,2.1,-2.5,2.4,-2.53,-0.6,-1.1,0.15,-1.35,-0.6,-0.1,0.9,-0.85,0.4,-0.35,-0.1,-2.35,-1.85}},
{"CDLHIKKAKE", {0,2.5,0,2.5,2.5,2.5,-0.5,2.5,2.5,4.2,2.5,4.2,4.2,4.23,-1.5,1.5,4,4,1.8,3,4,5.5,4,5.5}},
{"CDLHIKKAKE", {0,1.25,-0.25,1,0,0.25,-1.75,-1.5,0.05,0.05,-1.5,-1.5,-2.45,1.8,-3.65,-1.2,0.05,0.05,-2.97,0.03,0.05,0.47,-2.95,0.07}},
{"CDLHIKKAKE", {0,2.25,-0.25,2,1.5,4,1,3.5,3,3.5,3,3,3.5,6,3.25,5.5,5,5,4.25,5,5.5,6.25,4.5,4.5}},
{"CDLHIKKAKE", {0,0,-1.75,-1.5,-1.25,-0.25,-1.5,-0.75,-1.5,-1.25,-4.25,-3.5,-3.75,-3,-4.5,-4.25,-4,-3.25,-4,-4,-3,-1.25,-3.25,-1.5}},
{"CDLHIKKAKEMOD", {0,0.4,-2.9,-1.7,-1.7,-1.68,-2.1,-1.68,-1.73,-1.73,-6.43,-3.43,-3.93,-3.68,-5.43,-4.93,-5.18,-4.68,-5.18,-5.18,-5.93,-5.43,-6.93,-6.93}},
{"CDLHIKKAKEMOD", {0,0.25,-2.25,-2,-2,-1.75,-2,-2,-2.75,-2,-3.5,-2.75,-2.75,-2.72,-2.75,-2.75,-1.75,-1.75,-2.83,-2.8,-3.83,0.98,-4.23,-0.22}},
{"CDLHIKKAKEMOD", {0,3,-2.1,-1.7,0,0.03,-4.7,-1.7,-0.3,1.4,-1.5,1.4,1.1,1.13,-0.33,-0.3,0.4,0.43,0,0,-0.25,0,-2.25,-1.75}},
{"CDLHIKKAKEMOD", {0,7.3,0,6.1,7.1,11.6,5.9,8.6,5.95,7.35,2.95,6.15,5.4,5.4,3.4,3.9,4.4,5.15,3.65,4.9,3.9,4.65,2.65,3.4}},
{"CDLHIKKAKEMOD", {0,1.75,-0.25,1,0.75,7.35,0.35,6.95,-1.75,8.25,-2.15,7.05,6.55,7.3,5.3,6.05,5.8,5.8,5.8,5.8,-0.25,0.5,-2.75,-2.25}},
{"CDLHIKKAKEMOD", {0,0.03,-1,-1,-1,3.08,-1,0.08,-1,8.58,-4,5.58,7.58,7.61,-2,-2,0.38,3.98,0.35,2.78,2.03,2.03,-0.22,0.53}},
{"CDLHIKKAKEMOD", {0,0.03,-2.4,-2.4,-0.78,2.22,-2.35,-2.35,-3.28,0.22,-6.28,0.22,-6.23,-2.65,-6.26,-2.65,-3.65,-2.9,-4.15,-4.15,-3.15,-0.65,-3.15,-1.15}},
{"CDLHIKKAKEMOD", {0,0.5,-2.5,-2,-1.25,1,-2,0.25,-0.5,0.5,-1.25,0,-0.25,-0.25,-0.75,-0.25,-0.25,0.25,-0.5,-0.25,-0.5,0,-2.25,-2}},
{"CDLHIKKAKEMOD", {0,1.2,-1.06,-1.03,2.5,2.5,-6.48,-3.48,-3.23,-1.73,-3.98,-1.73,-2.48,-1.98,-2.98,-2.48,-1.73,-1.23,-1.73,-1.73,-2.73,-1.98,-5.23,-4.73}},
{"CDLHIKKAKEMOD", {0,1.75,-0.75,1.5,0.5,1,0,1,0.25,0.75,0.25,0.25,1.25,2,0.75,0.75,0,2.75,0,2,1,1.5,-0.75,-0.5}},
{"CDLHIKKAKEMOD", {0,0.4,-2.9,-2.5,0,3,0,0,-0.75,0,-3.25,-2.75,-1.75,-0.25,-2,-0.25,-1.25,-0.5,-1.5,-1.25,-0.75,2,-0.75,1.25}},
{"CDLHIKKAKEMOD", {0,2.93,-1.2,1.73,-0.05,1.76,-1.25,1.73,5.13,10.53,2.13,7.53,6.78,9.03,6.53,8.78,8.03,8.53,7.78,8.53,8.28,11.03,8.03,10.28}},
{"CDLHOMINGPIGEON", {0,0.75,-0.25,0.5,0.5,0.5,0.25,0.5,1,2,0.5,1.5,-0.5,3.45,-0.5,0.45,2.95,2.98,0.1,0.5,2.15,2.4,1.65,1.65}},
{"CDLHOMINGPIGEON", {0,0.75,-1,-0.5,-0.25,1.25,-1,0.75,1.5,3.5,1,3,3,3.25,2.5,2.5,1.5,2,-0.5,0,1,1.4,-0.7,0.5}},
{"CDLHOMINGPIGEON", {0,2.25,-0.75,2,2,3.25,1.75,3,2.75,3.5,1.75,2.25,2.25,3.45,1.97,2,1.25,1.65,0.25,0.25,0.95,2.15,-2.25,0.75}},
{"CDLHOMINGPIGEON", {0,0,-0.9,-0.9,0,1.2,-2.72,-1.52,0,3,-1.03,-1,0,0.5,-1.5,-1,-2,-1.75,-3.75,-3.5,-2.75,-2.5,-4,-3.25}},
{"CDLHOMINGPIGEON", {0,0.75,-0.5,0,-0.5,-0.25,-1.5,-1.5,-2.5,-0.5,-3,-0.5,-0.75,-0.25,-1.5,-0.75,-0.5,0.25,-2.25,-2,-0.55,-0.15,-1.55,-1.55}},
{"CDLHOMINGPIGEON", {0,0.25,-2,-2,-1.75,-0.5,-2,-0.75,-0.25,0.5,-3,-2.25,-3,-0.25,-3.25,-1,0,0.75,-2.5,-2,-1,-1,-2.25,-1.5}},
{"CDLIDENTICAL3CROWS", {0,3,-7.13,-7.1,1.65,4.65,-2,1,1.6,1.6,-1.33,-1.3,-0.55,-0.55,-2.3,-2.05,-2.3,-2.05,-2.8,-2.8,-2.55,-1.8,-3.8,-3.55}},
{"CDLIDENTICAL3CROWS", {0,1.7,0,1.7,1.7,2.9,-1.2,-1.2,2.9,5.3,1.7,5.3,1.7,1.7,0.7,0.7,0.7,1.45,-1.3,-1.3,-1.3,-0.8,-3.55,-3.3}},
{"CDLIDENTICAL3CROWS", {0,1.25,-0.25,0.5,-0.5,0.25,-0.75,0,0.5,2,0.5,1.5,0.8,0.8,0.52,0.55,0.52,0.52,0.47,0.5,0.47,3.47,0.45,0.45}},
{"CDLIDENTICAL3CROWS", {0,1,-0.25,1,-2.25,0.25,-3.45,0.25,0.25,2.2,0.25,1,0.25,1.45,-2.25,-2.25,-2.2,-2.2,-3.2,-3.2,-3.2,-0.2,-3.25,-3.25}},
{"CDLIDENTICAL3CROWS", {0,1,-0.25,1,-1,1.43,-1,1.4,1.25,2.45,-0.8,0.4,1.4,1.4,1.38,1.38,1.4,4.4,-0.85,-0.85,-0.85,-0.82,-3.5,-3.5}},
{"CDLIDENTICAL3CROWS", {0,2.2,-0.03,1,2.5,3.7,-0.43,-0.03,5.25,6.45,-2.53,-2.53,-2.83,-2.8,-2.88,-2.85,-2.85,-2.45,-4.58,-4.55,-4.55,-4.55,-6.8,-6.55}},
{"CDLINNECK", {0,0.03,-4.3,-1.3,-1.35,-0.95,-5.8,-4.6,-4.65,1.95,-4.65,-1.05,2.95,5.85,2.95,4.65,4.35,4.38,1.25,1.25,0.25,1.25,1.421e-14,1.25}},
{"CDLINNECK", {0,0.5,0,0.5,0.5,2.7,0.5,1.5,2.7,2.7,2.67,2.7,2.7,2.75,2.3,2.72,2.65,3.85,-1.03,-1,-1.5,-0.25,-2,-1}},
{"CDLINNECK", {0,0,-3.12,-1.92,-0.92,-0.92,-3.17,-2.42,-3.17,-2.67,-3.92,-3.17,-2.92,-1.92,-3.42,-1.92,-2.17,-2.17,-3.92,-3.67,-4.17,-3.17,-4.67,-3.67}},
{"CDLINNECK", {0,6,-3,3,1,1.02,-0.2,1.02,-0.15,1.07,-1.35,1.07,1.82,3.82,1.82,3.82,3.82,3.82,2.07,2.32,1.82,2.82,1.32,2.32}},
{"CDLINNECK", {0,3.05,0,3.05,4.05,7.07,4.02,4.07,1.55,7.07,1.15,4.07,0.85,0.87,0.85,0.87,3.35,3.38,0.47,0.87,-0.13,0.87,-0.13,0.87}},
{"CDLINNECK", {0,1.2,-2.9,-1.7,-2.85,0.15,-2.93,-2.9,-2.98,1.03,-2.98,1,1.75,2.25,1.25,1.75,2.75,3,1,1.25,0.75,1.25,0.75,1.25}},
{"CDLINVERTEDHAMMER", {0,5.4,-3,2.4,5.7,7.43,2.7,7.4,4.93,4.96,-1.17,1.83,1.83,4.2,1.43,3,5.7,6.9,1.96,4.96,3.96,4.71,3.46,3.46}},
{"CDLINVERTEDHAMMER", {0,6.1,-1.2,3.1,3.15,3.18,0.47,0.5,0.5,2.15,0.47,2.15,5.8,6.2,-1.5,-1.5,0.77,0.77,-4.03,-4,-5,-4.25,-5.75,-5.5}},
{"CDLINVERTEDHAMMER", {0,1.7,0,1.7,1.7,1.73,-4,-1,1.5,1.5,-0.7,0.5,1.5,3,1.5,3,3.25,4,1,1.75,1,2.25,1,1.5}},
{"CDLINVERTEDHAMMER", {0,0,-2.5,-2,-1.5,-1.25,-4,-3.5,-3.25,-2.5,-3.5,-2.75,-2.5,-2.08,-5.5,-2.48,-2.08,-0.6,-5.08,-1.8,-3.08,-1.88,-4.08,-4.08}},
{"CDLINVERTEDHAMMER", {0,0.5,-0.25,0.5,-0.5,0,-1.25,0,-0.75,-0.75,-2.25,-2.25,-2.75,-2.5,-4.75,-4.25,-2.5,-2.25,-5.5,-2.25,-6.5,-5.3,-7.5,-7.5}},
{"CDLINVERTEDHAMMER", {0,0.75,-2.25,-2,-2.75,-0.5,-3.25,-0.75,-1.75,-1.75,-3.5,-3.25,-3,-2,-3.25,-2.5,-3.25,-3,-6,-5.25,-5.5,-4.75,-6.25,-6}},
{"CDLKICKING", {0,1.5,-0.25,1,-2.5,3.25,-2.53,0.25,-2.83,0.17,-5.93,-5.93,-6.93,-3.93,-7.93,-7.93,-0.2,-0.2,-3.3,-3.3,-0.15,1.55,-0.15,1.55}},
{"CDLKICKING", {0,0.75,-1.25,-0.5,-0.75,-0.72,-1.58,-1.55,1.75,1.75,-0.65,-0.65,-9.1,-7.1,-9.6,-7.1,-7.1,-7.1,-9.08,-9.05,-6.1,-4.6,-6.1,-4.6}},
{"CDLKICKING", {0,1.75,-0.75,1.5,1.5,2,0.75,2,2.75,2.75,1.25,1.75,0.75,1.5,-0.75,-0.25,-0.75,-0.75,-2.5,-2.5,-0.7,1.03,-0.73,1}},
{"CDLKICKING", {0,0,-0.75,-0.5,-0.75,-0.25,-0.75,-0.25,0.25,0.75,-1.25,-0.75,-0.75,-0.75,-3.5,-2.75,-0.8,-0.8,-2.75,-2.75,-0.75,0.98,-0.75,0.95}},
{"CDLKICKING", {0,0.25,-0.5,0,-0.25,0.5,-1.5,-1.25,-1.5,-0.25,-2.25,-0.5,0,2,0,2,0.05,0.05,-1.65,-1.65,1,3.4,1,3.4}},
{"CDLKICKING", {0,2,-0.75,1.5,2,4,1.75,3.5,5,5.03,0,3,2,3.2,1.97,2,1.97,1.97,-1.13,-1.13,2.02,4.45,1.99,4.42}},
{"CDLKICKING", {0,2.25,-0.25,1.5,-0.3,2.5,-0.3,2.1,-0.6,-0.6,-4.2,-3,-0.6,6.2,-1.8,5,1.9,5.03,1.87,5,-0.6,-0.6,-4,-4}},
{"CDLKICKING", {0,0,0,0,-0.75,-0.75,-1.25,-1.25,1.75,2.17,0.55,1.77,1.75,2.15,-0.68,-0.65,-1,2.2,-1.03,2.2,-2,-2,-4.43,-4.4}},
{"CDLKICKING", {0,1.75,-0.75,1.5,0.5,1.75,0.25,1,1,1.9,0.97,1.5,1.85,3.05,1.45,1.85,0.85,2.55,0.85,2.55,0.8,0.8,-2.3,-2.3}},
{"CDLKICKING", {0,2,-0.75,1.5,0.05,1.08,0.05,1.05,-1.42,1.48,-2.62,0.28,-0.55,-0.55,-1.75,-1.72,-2.62,1.08,-2.62,1.08,-2.92,-2.92,-6.02,-6.02}},
{"CDLKICKING", {0,2,-0.5,1.5,1,1,-1.75,-1,-0.5,0.25,-1,0,0.5,1.25,-0.5,-0.5,-0.45,2,-0.48,2,-0.75,-0.72,-3.88,-3.85}},
{"CDLKICKING", {0,0.5,-1.5,-1.5,-0.5,-0.5,-2.25,-2,-2.25,0,-2.5,-0.75,2.5,5.4,2.5,4.2,2.5,4.93,2.47,4.9,2.45,2.45,0.47,0.5}},
{"CDLKICKINGBYLENGTH", {0,2.75,0,2,1.75,2.5,-0.25,0.25,0.3,3.95,0.27,2.75,-0.25,4.05,-0.28,2.85,0.35,2.78,0.35,2.75,-0.3,-0.3,-2.7,-2.7}},
{"CDLKICKINGBYLENGTH", {0,0.25,-2.5,-2,-1.25,0,-1.5,-0.75,0,2.25,-0.5,1.5,2.5,3.25,1.75,3,2.25,4.65,2.22,4.65,-0.05,-0.02,-1.53,-1.5}},
{"CDLKICKINGBYLENGTH", {0,0.75,-0.25,0,0.3,1.5,0,0,1.45,2.65,-1,-1,2.65,2.65,0.45,0.45,1.45,4.55,1.45,4.55,1.15,1.15,-0.55,-0.55}},
{"CDLKICKINGBYLENGTH", {0,1,-0.75,0.5,9.8,10.55,9.8,9.8,9.05,11.3,8.55,11.05,13.55,14.55,13.55,14.55,1.5,11.38,1.5,11.35,1.45,1.45,-1.65,-1.65}},
{"CDLKICKINGBYLENGTH", {0,0,-1.5,-1.5,-0.75,-0.25,-1,-0.75,-1.25,-1.25,-1.75,-1.25,-2,-2,-2.5,-2,-1.7,1.4,-1.7,1.4,-2.7,-2.67,-5.1,-5.1}},
{"CDLKICKINGBYLENGTH", {0,0.5,-1.25,-1,1.2,2.4,-6.5,-3.5,0.9,2.1,0.88,0.88,-1,2.9,-1,-0.1,-1.05,5.4,-1.05,5.4,-3.55,-3.55,-5.98,-5.95}},
{"CDLKICKINGBYLENGTH", {0,1.5,-0.25,1,-2.5,3.25,-2.53,0.25,-2.83,0.17,-5.93,-5.93,-6.93,-3.93,-7.93,-7.93,-0.2,-0.2,-3.3,-3.3,-0.15,1.55,-0.15,1.55}},
{"CDLKICKINGBYLENGTH", {0,0.75,-1.25,-0.5,-0.75,-0.72,-1.58,-1.55,1.75,1.75,-0.65,-0.65,-9.1,-7.1,-9.6,-7.1,-7.1,-7.1,-9.08,-9.05,-6.1,-4.6,-6.1,-4.6}},
{"CDLKICKINGBYLENGTH", {0,0,-1.25,-0.5,-1.25,-0.5,-2.5,-2.25,-2.25,-0.75,-3,-0.75,0.25,0.25,-0.5,0.25,-0.55,-0.55,-2.95,-2.95,-0.45,1.25,-0.45,1.25}},
{"CDLKICKINGBYLENGTH", {0,1,-0.75,1,1.05,4.15,0.65,4.15,2.05,3.18,1.65,3.15,5.68,11.78,5.68,8.78,5.63,5.66,3.45,3.45,5.71,7.44,5.71,7.41}},
{"CDLKICKINGBYLENGTH", {0,2,-0.5,2,1,1,-1,-1,-1.25,-0.5,-1.75,-1.25,-0.75,-0.75,-2.25,-1.75,0.75,0.75,-2.25,-2.25,1.05,2.75,1.05,2.75}},
{"CDLKICKINGBYLENGTH", {0,0.25,-0.75,-0.5,-1.5,-1,-2.25,-1.5,-1.75,-1.75,-2.25,-1.75,-1.8,2.5,-4.8,-0.5,2.5,3.5,2.5,3.5,0,0.03,-2.43,-2.4}},
{"CDLLADDERBOTTOM", {0,0.75,-0.5,0,-0.25,-0.25,-1,-0.75,-1,-1,-2.5,-2,-2,-2,-3.25,-2.5,-2.75,-2,-4.75,-4.25,-1.75,-0.75,-1.78,-0.75}},
{"CDLLADDERBOTTOM", {0,3,-3,0,0,0.75,-2,-2,-1.75,-1,-4,-3.75,-4,-3.25,-5.75,-5.5,-4.75,-4,-5.25,-5.25,-4.5,-3.5,-5.25,-3.5}},
{"CDLLADDERBOTTOM", {0,0.75,0,0,0.5,0.75,-2.25,-1.5,-0.5,0.25,-3,-2.5,-3.5,-3.25,-5,-4.5,-4,-3.5,-5,-4.5,-3.5,-0.37,-6.5,-0.4}},
{"CDLLADDERBOTTOM", {0,0.5,-2.5,-2,-1.5,-0.75,-2.5,-2.5,-3.5,-2.75,-4.75,-4,-4.75,-4.5,-6.5,-6.25,-5.25,-5,-5.75,-5.75,-5,-3.75,-5.5,-4.5}},
{"CDLLADDERBOTTOM", {0,0.75,-0.75,-0.5,-0.25,0.5,-2.25,-1.75,-1.5,-1,-2.5,-2,-2.75,-2,-3.25,-3.25,-2.25,-1.5,-3.5,-2.75,-1.75,0.75,-2.25,0.25}},
{"CDLLADDERBOTTOM", {0,0,-2.5,-2,-2.25,-2.25,-4.5,-4.25,-4.75,-4,-6.5,-5.75,-6.25,-5.75,-9,-8.25,-8.75,-8.25,-10.5,-10.25,-2.25,0.65,-2.25,-0.55}},
{"CDLLONGLEGGEDDOJI", {0,1.5,-0.5,1.5,2,2.25,0.25,1,1,2.5,1,2.5,1.05,2.55,1.02,2.55,0.05,2.45,0.02,2.45,2.45,5.6,1.25,2.6}},
{"CDLLONGLEGGEDDOJI", {0,2.1,-0.03,1.7,1.75,5.05,1.75,2.05,1.7,3.4,1.3,3.4,3.4,3.43,1.7,1.7,3.4,6.4,0.3,0.3,0.3,0.3,-0.45,0.3}},
{"CDLLONGLEGGEDDOJI", {0,0.5,-0.75,-0.5,-1.25,-0.75,-3.5,-3.25,-4,-4,-6.25,-5.5,-6.5,-6.5,-7.5,-7.5,-6.5,-5,-7,-5.5,-5.75,-5.5,-6.25,-5.75}},
{"CDLLONGLEGGEDDOJI", {0,0.5,-0.75,0,0,1,-0.75,1,1,1.25,-1.5,-1,-2,-2,-2.5,-2.5,-3,-3,-5.25,-5,-4.75,-4,-5,-4.75}},
{"CDLLONGLEGGEDDOJI", {0,4.7,-3,1.7,0.95,3.2,0.7,2.95,2.45,4.95,1.95,4.45,3.95,4.45,3.95,3.95,4.45,6.95,4.2,6.45,5.95,5.95,5.2,5.95}},
{"CDLLONGLEGGEDDOJI", {0,0.5,-2,-1.5,-4.5,0.4,-5.7,0,-4.2,-3.8,-7.22,-4.22,-4.52,-4.52,-7.1,-6.7,-6.7,-0.6,-6.7,-1,-4.52,-1.5,-7.52,-4.5}},
{"CDLLONGLINE", {0,2.37,-0.4,1.17,3.87,5.07,0.13,3.13,2.13,2.88,1.63,1.63,2.38,3.63,1.88,3.38,2.88,3.13,1.88,1.88,1.13,2.88,0.88,2.63}},
{"CDLLONGLINE", {0,0,-0.5,0,0.5,1.25,-1.25,-0.5,0,0,-0.25,0,0.3,0.3,-1,-1,0.3,2.03,-0.9,2,1,3.4,0.97,3.4}},
{"CDLLONGLINE", {0,1.75,-0.25,1,1,1.5,-0.25,0,2,5,-5.75,-2.75,-5.8,-4.6,-5.8,-5.8,-3.3,-0.9,-3.3,-0.9,-3.4,1.5,-3.4,1.5}},
{"CDLLONGLINE", {0,0.25,-2,-2,0.25,3.03,0.25,3,2.75,5.75,-0.25,2.75,3,4.2,-1,2,3,3.4,2.35,2.75,3.4,6.45,3.37,6.05}},
{"CDLLONGLINE", {0,0.53,0,0.5,0.5,5.2,-2.5,2.2,1.45,3.7,1.2,3.45,2.95,5.45,2.45,4.95,4.45,4.95,4.45,4.45,4.95,7.45,4.7,6.95}},
{"CDLLONGLINE", {0,1,-0.75,0.5,1,1.75,-0.2,1.75,1,2.03,0.97,2,1,4,-1.2,0,1.3,2.01,1.3,1.98,0.3,1.6,0.3,1.6}},
{"CDLLONGLINE", {0,0.25,-1,-1,-0.25,-0.25,-2.5,-2.25,-1.75,-1.5,-2.75,-2.75,-3.75,-3.25,-5.5,-5.25,-5.5,-5.5,-7,-7,-7.75,-7.25,-10,-9.75}},
{"CDLLONGLINE", {0,0,-1.6,-1.6,-0.85,2.65,-1.25,2.25,3.65,4.05,-2.75,-1.55,-1.6,-1.6,-5.6,-2.6,-2.85,-2.6,-4.1,-3.85,-3.6,-3.1,-5.6,-5.6}},
{"CDLLONGLINE", {0,1.4,-3,1,1.55,4.55,-3,0,2.55,2.55,-1.45,1.55,-2.45,-0.55,-2.85,-0.95,-1.2,-0.7,-1.95,-1.7,-2.45,-1.95,-4.7,-4.45}},
{"CDLLONGLINE", {0,0.5,-0.75,-0.5,-0.5,0.25,-1.25,0,-1,-1,-3.25,-2.5,-2.75,0,-2.75,-0.75,0.25,0.5,-2,-1.75,-2.75,-2.5,-4.75,-4.75}},
{"CDLLONGLINE", {0,0.5,0,0,0.5,3,0.25,2.5,2,2,1.25,2,2.5,3.25,1.5,1.5,0.5,0.5,-0.75,-0.5,0.5,0.75,-1.75,-1.5}},
{"CDLLONGLINE", {0,0,-2.25,-2,-1.25,-1,-1.75,-1.75,-0.75,0.75,-1.25,0.25,1,1.25,1,1,1.5,4.25,1.5,3.5,0.5,0.53,-0.95,-0.95}},
{"CDLMARUBOZU", {0,2.37,-0.4,1.17,3.87,5.07,0.13,3.13,2.13,2.88,1.63,1.63,2.38,3.63,1.88,3.38,2.88,3.13,1.88,1.88,1.13,2.88,0.88,2.63}},
{"CDLMARUBOZU", {0,2,-0.75,1.5,1,1,0,0.5,0.7,1.7,0.67,1.7,0.7,2.03,0.67,2,4.5,5.7,-2.3,0.7,-2.6,0.7,-2.6,0.67}},
{"CDLMARUBOZU", {0,1.75,-0.25,1,1,2,1,2,2,2,0.75,1,1,3.5,1,3.5,3.5,3.5,0.5,3.5,3.5,5.2,3.5,5.2}},
{"CDLMARUBOZU", {0,0.75,-0.25,0.5,-0.3,0.9,-0.3,0.5,0.95,1.35,0.75,0.75,0.8,4.4,0.8,3.2,1.4,1.4,-5.8,-2.8,-8.3,3.2,-8.3,3.2}},
{"CDLMARUBOZU", {0,1,0,1,1.75,3,1.5,2.25,1.5,1.5,-1,-0.5,-0.75,1,-1,0.75,0.75,0.77,0.72,0.77,1.75,3.5,1.75,3.5}},
{"CDLMARUBOZU", {0,0.25,-0.5,-0.5,0.5,2,0,1.5,2.25,2.5,2.25,2.25,2.75,5.5,2.75,4.75,1.75,1.78,0.3,0.3,0.3,2.48,0.3,2.45}},
{"CDLMARUBOZU", {0,1,0,1,4.9,6.1,3.9,3.9,3.4,5.15,2.9,4.9,5.9,6.4,5.9,5.9,5.4,6.15,4.9,5.4,6.15,6.15,5.15,5.15}},
{"CDLMARUBOZU", {0,0,-1.25,-0.5,0,0.75,-0.75,-0.5,2.5,2.9,-0.55,-0.55,-0.2,0.05,-0.2,0.05,-0.2,2.8,-6.3,-3.3,1.75,1.78,-0.8,-0.8}},
{"CDLMARUBOZU", {0,0.5,-2,-1.5,-2.5,-2,-3.5,-3,-1.95,-0.75,-6.65,-3.65,-2.65,1.35,-3.05,-1.65,-2,-1.95,-2,-1.95,0.5,0.5,-1.65,-1.65}},
{"CDLMARUBOZU", {0,1.25,-0.75,0.5,0.25,0.75,0.25,0.25,1,1,-0.25,0.5,0.75,1.75,0,1.25,0.75,3,0.5,2.25,1.5,1.75,-0.75,-0.5}},
{"CDLMARUBOZU", {0,0.75,-2.25,-1.5,-1.25,-0.25,-1.75,-0.75,0,0.75,-1,-0.5,-1.25,-0.75,-1.5,-0.75,-1.75,-1.25,-2.5,-1.25,-2,-2,-3.5,-3.5}},
{"CDLMARUBOZU", {0,0.5,-1.25,-0.5,-1.5,0.25,-2,0,-0.25,0.25,-0.75,-0.25,-0.25,-0.25,-2,-1.75,0.55,1.75,-0.28,-0.25,0.05,0.08,-1.5,-1.5}},
{"CDLMATCHINGLOW", {0,3.95,0,0.95,3.45,3.48,0.6,1,2.65,2.9,2.15,2.15,2.3,6.38,2.3,5.98,5.98,6.01,2.92,2.95,3.45,3.95,2.7,2.95}},
{"CDLMATCHINGLOW", {0,0.75,-2,-1.5,-2.5,-0.02,-3.7,-0.05,0,0,-4.5,-4.5,1,1,-0.73,-0.7,1.8,1.8,-1.3,-1.3,-0.7,2.3,-1.33,-1.3}},
{"CDLMATCHINGLOW", {0,0,-3.6,-2.4,1,1.02,1,1.02,1.02,3.5,0.99,3.5,-1,0,-1,0,0.25,0.5,-1.75,-1.75,-0.75,0,-2.25,-1.75}},
{"CDLMATCHINGLOW", {0,1.5,-0.25,1.5,2.5,3.25,-0.25,0.5,1.5,2.25,-0.5,-0.5,2.25,3.45,2.23,2.23,4.45,4.45,-0.25,-0.25,1.95,3.15,-0.25,-0.25}},
{"CDLMATCHINGLOW", {0,2.25,-0.75,1.5,1.5,3.5,1.25,3,4,4.4,3.45,3.45,3.95,6.97,3.92,3.97,4.97,4.97,3.92,3.95,5.02,6.22,2.72,3.92}},
{"CDLMATCHINGLOW", {0,0.5,-2.5,-2,-2.75,-0.75,-3.5,-1.25,-1.75,-1,-3.25,-3.25,-3.2,-0.2,-9.3,-6.3,-9,-9,-12.5,-12.1,-10,-9.6,-15.1,-12.1}},
{"CDLMATHOLD", {0,0.4,-4.15,-4.15,-5.8,-0.6,-5.8,-1,-0.25,-0.25,-1,-0.75,-0.5,0,-1.75,-1.5,-1.75,-0.75,-2.5,-0.75,0.25,2,-0.5,1.75}},
{"CDLMATHOLD", {0,0.7,-0.4,0.7,-0.3,2.2,-0.55,1.7,3,3,1.75,2,2.5,2.75,1,1,0.75,1.5,0.75,1.25,2.25,3.75,2,3.25}},
{"CDLMATHOLD", {0,0,-3.5,-3.1,-3.55,1.73,-3.58,1.7,2.05,2.05,1.75,1.75,1,1.75,0.25,1.5,0.5,1.75,0,1,2,3,1.25,2.5}},
{"CDLMATHOLD", {0,0.4,0,0,-2.5,0.43,-3.7,0.4,0.7,0.7,-2.32,0.68,0.4,0.4,-0.3,-0.3,0.2,0.2,-0.3,0.2,0.45,2.45,0.45,1.95}},
{"CDLMATHOLD", {0,0.4,-1,-1,-1,2.1,-1.4,2.1,2.15,2.18,1.73,2.13,2.03,2.43,-1.25,1.75,1.73,1.76,1.73,1.73,2.48,3.23,2.48,2.48}},
{"CDLMATHOLD", {0,11.3,-1.2,11.3,-1.15,11.3,-2.35,10.9,11.9,12.65,11.4,11.4,11.65,11.65,9.15,9.65,9.15,10.65,8.9,10.65,11.15,13.9,10.65,13.15}},
{"CDLMORNINGDOJISTAR", {0,2,-0.5,1.5,2.25,2.25,0.75,1.25,0.25,2,0.25,1.25,1,1.75,-1,-0.5,-1.5,-0.75,-2.25,-1.5,-1.25,0.75,-2,0.75}},
{"CDLMORNINGDOJISTAR", {0,0,0,0,-0.5,0.25,-2.5,-2.5,-2.75,-2.5,-4,-3.25,0,3,-3.2,-2.8,-5.7,-5.28,-6.9,-5.68,-2.78,-0.68,-2.78,-1.08}},
{"CDLMORNINGDOJISTAR", {0,0,-1.73,-1.7,-1.73,1.27,-1.78,-1.75,-2.03,2.25,-2.03,2.25,0.75,0.75,-1.75,-1.75,-2.5,-1.75,-2.5,-2.5,-2.25,-0.25,-2.5,-0.25}},
{"CDLMORNINGDOJISTAR", {0,0.75,-1.25,-0.5,0,0,-0.25,0,-1,-0.5,-3.25,-3,-2.5,-2,-4.75,-4.5,-5.5,-5.5,-5.75,-5.5,-5.45,-2.6,-5.85,-3}},
{"CDLMORNINGDOJISTAR", {0,0.75,-1,-1,-1,-0.75,-3.25,-2.5,-2.5,-2.25,-3.75,-3.5,0,3,-3.65,-3.25,-8.64,-7.89,-8.64,-8.64,-8.64,4,-11.64,1}},
{"CDLMORNINGDOJISTAR", {0,3.1,-0.03,3.1,3.1,3.6,2.85,3.6,-18.6,-18.1,-21.1,-20.6,-20.85,-20.6,-23.35,-22.85,-23.1,-23.1,-23.85,-23.1,-23.35,-20.85,-24.1,-21.35}},
{"CDLMORNINGSTAR", {0,2.25,-0.75,2,0.05,0.55,-0.2,0.55,0.55,1.3,-1.2,-0.95,-0.2,-0.2,-2.45,-1.7,-2.45,-1.95,-3.7,-2.95,-2.45,-0.7,-2.95,-0.95}},
{"CDLMORNINGSTAR", {0,0,-3.73,-3.7,0,0,-0.03,0,-0.5,0.25,-1.5,-1.5,-1.25,-1,-2.75,-2.25,-3,-2,-3.25,-2.5,-2,0,-2,-0.5}},
{"CDLMORNINGSTAR", {0,0.5,-1.5,-1,-1,-0.75,-1.75,-1.5,-2,-1.25,-4,-4,-4.5,-4.25,-6.75,-6,-6.75,-6.5,-7.5,-6.75,-6,-4,-6.25,-4}},
{"CDLMORNINGSTAR", {0,1.5,0,1,0,1.5,0,1,1.75,3.25,1,2.75,-0.8,-0.8,-1.8,-1.8,-4.3,-4.3,-5.52,-4.32,-4.25,1.85,-4.25,-1.15}},
{"CDLMORNINGSTAR", {0,0.75,-1.5,-1.5,-2.5,-0.5,-2.75,-0.5,-18.64,-18.39,-21.14,-20.64,-21.64,-20.89,-23.39,-23.14,-23.39,-23.39,-23.41,-23.41,-19.14,-17.39,-19.89,-17.64}},
{"CDLMORNINGSTAR", {0,0,-2.5,-2,-1.75,-0.5,-2,-1.25,-2,-1.5,-2.5,-2.5,-1.5,-1,-3.5,-3,-3.5,-3.25,-5,-4.5,9.57,11.82,9.32,11.57}},
{"CDLONNECK", {0,0.5,0,0,-0.5,0.25,-1,-0.5,0.25,0.25,-0.75,-0.75,-0.75,0,-2.25,-2.25,-2.75,-2.25,-5.25,-4.75,-5.75,-5,-6,-5.25}},
{"CDLONNECK", {0,2.25,-0.25,1.5,3,4.2,-3.95,-2.75,-2.8,-1.58,-5.8,-2.78,5.04,5.04,4.54,5.04,0.5,0.9,-3.65,-3.65,-3.78,-3.76,-3.81,-3.76}},
{"CDLONNECK", {0,0,-1.75,-1,-1.25,-0.5,-1.75,-1.25,-1,0.75,-1.5,0,0.5,0.75,-1.75,-1,0,0.75,-2,-2,-3,-1.25,-3,-2}},
{"CDLONNECK", {0,0.25,-1,-1,-1.25,-1,-1.25,-1.25,-1,-0.25,-3,-2.5,-1.5,-1.25,-2.75,-2.5,-2.25,-2.25,-4.35,-3.95,-4.95,-4.35,-7.95,-4.35}},
{"CDLONNECK", {0,0.5,0,0.5,0.05,0.53,-2.95,0.5,3.03,3.03,-1.2,0,0.55,3.55,-4.15,-1.15,-0.85,-0.82,-6.68,-6.65,-7.68,-5.43,-8.88,-6.63}},
{"CDLONNECK", {0,1.2,-0.42,-0.02,1.15,1.55,-1.95,-1.95,-2.2,-1.45,-2.7,-2.7,-3.2,-2.2,-3.95,-2.7,-1.95,-1.95,-3.45,-3.45,-4.45,-3.45,-4.45,-3.45}},
{"CDLPIERCING", {0,2.2,-0.4,1,2.5,2.5,1.97,2,-0.5,7.7,-3.5,4.7,4.7,4.73,1.1,2.3,2.3,2.33,-0.8,-0.8,-1.05,1.7,-1.3,0.95}},
{"CDLPIERCING", {0,1,-0.75,1,1.5,3.25,1,3,3,4.75,2.75,4.5,3.5,3.75,3.5,3.5,3.5,4.25,1.5,1.5,1,3,0.25,3}},
{"CDLPIERCING", {0,0.7,0,0.7,0,1,-0.03,1,1,2.2,-0.2,1,0.7,1,0.3,1,1,1.03,-0.7,-0.7,-0.95,1.3,-1.7,0.55}},
{"CDLPIERCING", {0,2.75,0,2,2,4,2,4,3.25,3.25,1.75,2.25,4.25,4.28,3.27,3.3,3.95,6.95,-0.25,-0.25,-0.3,6.25,-1.5,3.25}},
{"CDLPIERCING", {0,1.25,-0.25,1,0.5,1.25,-0.25,0.5,0.75,1.5,-0.5,-0.25,0.25,0.5,-0.25,-0.25,-1.25,-0.5,-2.5,-2.25,-3,-1,-3.75,-1.5}},
{"CDLPIERCING", {0,3.1,0,3.1,2.5,2.5,1.28,2.48,2.8,2.83,2.43,2.43,2.18,3.18,2.18,3.18,3.43,3.93,1.43,1.93,0.93,3.43,0.68,2.93}},
{"CDLRICKSHAWMAN", {0,0.4,-0.7,-0.3,-4.9,-3.9,-4.9,-3.9,0,1.2,-1,-1,-1.5,0.25,-2,0,1,1.5,1,1,0.5,1.25,0,0.5}},
{"CDLRICKSHAWMAN", {0,0,-1,-1,0,0.75,-1,-1,-1.75,-1.25,-2.75,-2.25,-2.05,-1,-5.05,-1,-2.35,-2,-2.35,-2,-2,-1.6,-2.42,-2.02}},
{"CDLRICKSHAWMAN", {0,0.4,-0.82,-0.82,-1.82,-0.3,-1.82,-0.3,-1.82,-1.82,-4.22,-4.22,-3.47,-2.47,-4.22,-2.47,-1.47,-1.47,-2.72,-1.97,-2.97,-2.72,-3.47,-2.97}},
{"CDLRICKSHAWMAN", {0,0.4,-0.65,-0.25,0.4,3.45,0.37,3.05,11.2,13.95,11.2,13.2,12.45,12.7,11.95,12.45,10.2,11.2,9.95,11.2,10.2,10.7,9.95,10.2}},
{"CDLRICKSHAWMAN", {0,3,-4.3,-3.1,-2.5,1.75,-3.7,1.72,1.22,1.47,1.22,1.22,0.22,0.72,-1.28,-1.28,-1.78,-0.78,-1.78,-1.28,-1.78,-1.03,-2.28,-1.78}},
{"CDLRICKSHAWMAN", {0,0.75,-2.25,-2,-2.25,-1.75,-2.25,-1.75,-2.5,-2.5,-3.75,-3,-4,-3.25,-4.25,-3.5,-2.75,-2.5,-3.5,-3.25,-3,-2.5,-3.25,-3}},
{"CDLRISEFALL3METHODS", {0,3,-6.2,-5,-5.25,-3,-6,-3.25,-2.25,-1.75,-4.5,-4.25,-4.25,-3.75,-5,-4.75,-4.5,-3.75,-5.25,-5,-4.25,-1.5,-4.75,-2.25}},
{"CDLRISEFALL3METHODS", {0,2.4,-1.2,2.4,-1.5,3.2,-1.5,0.2,2.47,2.47,2.45,2.45,0,0.4,-1.6,-1.2,-0.45,0.3,-1.7,-1.45,-0.45,1.3,-0.45,1.05}},
{"CDLRISEFALL3METHODS", {0,1.75,-0.5,1.5,2.25,4.5,1.75,4.25,5,5.75,3.75,4,3.75,4,2.5,3.25,3.25,3.25,2.25,2.75,5.75,7.48,5.72,7.45}},
{"CDLRISEFALL3METHODS", {0,0.5,-1.25,-1,-0.5,1.75,-1.25,1,1.75,2.5,0.5,1.25,0.75,0.75,-0.25,-0.25,0,0,-0.75,-0.5,0,2.75,-0.75,2}},
{"CDLRISEFALL3METHODS", {0,0.5,-1.75,-1.5,-0.5,1.5,-1,1.5,1.75,2,0.25,0.25,0,0.25,-1.25,-0.5,0.25,0.25,-0.75,-0.75,0,2.5,-0.5,2}},
{"CDLRISEFALL3METHODS", {0,0.5,-1.25,-0.5,0.5,2.5,0.5,2.5,2.75,3,1.75,1.75,2.05,3.25,-0.15,1.05,0.8,0.8,-0.18,-0.15,0.75,4.28,-0.45,4.25}},
{"CDLRISEFALL3METHODS", {0,0.5,-1.25,-0.5,-1,-1,-3.25,-3,-3,-1.75,-3.75,-2,-1.5,-0.75,-1.5,-1.5,-1.45,-1.17,-1.45,-1.2,-2.17,0.83,-4.45,-3.25}},
{"CDLRISEFALL3METHODS", {0,0.5,-2.25,-2,-1.5,-1,-4.25,-3.5,-4,-2.5,-4.25,-3,-3,-1.25,-3.5,-1.5,-2,-1.17,-3.2,-1.2,-1.75,-1.35,-4.15,-4.15}},
{"CDLRISEFALL3METHODS", {0,6.3,-3,3.3,2.3,2.3,0.52,0.55,-0.2,1.55,-0.2,0.8,1.3,1.55,1.3,1.3,2.05,2.05,1.8,2.05,1.8,2.05,-0.45,-0.2}},
{"CDLRISEFALL3METHODS", {0,0.25,-0.5,-0.5,-0.75,0,-3,-2.75,-1.75,-0.5,-2.25,-0.75,-1,0.5,-1.5,0,-0.25,1,-0.75,0.25,-0.8,-0.8,-5.2,-4}},
{"CDLRISEFALL3METHODS", {0,0.75,-2,-1.5,-2,-2,-4,-4,-3.5,-3.5,-3.5,-3.5,-4.25,-3.25,-5,-3.25,-2.75,-2,-3,-2.75,-3.25,-3.25,-4.75,-4.75}},
{"CDLRISEFALL3METHODS", {0,0,-1.7,-1.7,0,0,-3.2,-2,-1.95,-0.73,-1.98,-1.93,-1.93,-0.93,-1.93,-0.93,-0.93,0.07,-0.93,0.07,-0.68,-0.43,-2.93,-2.68}},
{"CDLSEPARATINGLINES", {0,1.5,-0.5,1.5,1.25,1.75,0.5,1.75,0.75,1.5,-1,-0.25,-2.75,1.75,-3.95,1.75,-2.5,-2.5,-2.52,-2.52,-2.5,1.5,-2.5,1.5}},
{"CDLSEPARATINGLINES", {0,0.75,-0.75,0,-0.25,1.5,-0.25,1.25,1.5,2,-0.5,0,-0.5,0,-1,-0.5,-1,-1,-1.75,-1.5,-1,0.75,-1,0}},
{"CDLSEPARATINGLINES", {0,0,-1.75,-1.5,-0.5,0,-0.75,-0.5,-0.2,0.05,-1.4,0.05,-1.2,1.55,-1.6,0.35,1.5,4.5,-5.45,-4.25,1.45,4,1.45,4}},
{"CDLSEPARATINGLINES", {0,1.25,-0.25,1,0.75,3.5,0.75,2.75,-0.5,2.25,-0.5,2.25,-0.55,-0.5,-0.55,-0.5,-0.55,2.45,-3,-3,-0.55,2.25,-0.58,1.85}},
{"CDLSEPARATINGLINES", {0,0.5,-1.25,-1,3,3.03,-2.33,-2.3,-2.3,-2.27,-4.5,-3.3,0.23,1.26,0.23,1.23,3,3,-4.7,-3.5,3,8.53,2.97,5.53}},
{"CDLSEPARATINGLINES", {0,1.75,-0.25,1.5,1.75,2.25,0,0.25,1.25,1.75,-1,-0.25,0.75,2.25,0.75,2.25,-0.25,2.75,-1.75,-0.55,-0.25,5.15,-0.25,2.15}},
{"CDLSEPARATINGLINES", {0,1.5,0,1.5,0.05,1.55,0.02,1.55,-0.95,1.45,-0.98,1.45,1.45,4.6,0.25,1.6,-1.05,3,-4.05,0,-1,-1,-7.1,-4.1}},
{"CDLSEPARATINGLINES", {0,0.5,0,0,0.25,0.25,-0.75,-0.25,0,4,-0.4,1,-2.9,1.1,-2.9,0.7,-1.25,1,-1.25,1,-1.25,-1.25,-5.9,-2.9}},
{"CDLSEPARATINGLINES", {0,2.95,-0.03,2.55,0,2.35,-1.2,2.35,2.1,3.35,1.85,3.1,3.85,4.35,2.85,2.85,2.6,3.6,2.35,3.6,2.6,2.85,0.1,0.6}},
{"CDLSEPARATINGLINES", {0,0.25,-0.75,0,-0.75,0,-2.25,-1.75,-1.75,-1.25,-2.5,-2.25,-2,0.75,-2.5,0,0.3,3.3,0.3,0.3,0.3,0.3,-2.23,-2.2}},
{"CDLSEPARATINGLINES", {0,0.5,-2.75,-2,-1,1,-1.5,1,2,3.75,1.5,3.5,4.25,6.25,3.75,6.25,6.2,6.22,5.8,6.22,6.17,6.17,-0.15,1.05}},
{"CDLSEPARATINGLINES", {0,0.03,-1.73,-1.7,-1.95,-1.2,-2.2,-1.45,-0.7,1.55,-0.7,1.3,1.8,3.8,1.8,3.8,4.55,5.05,3.8,4.55,4.55,4.55,1.8,2.55}},
{"CDLSHOOTINGSTAR", {0,2,0,1.5,0,1.2,-2.9,-1.7,1.2,3.6,1.2,3.6,3.6,4,2.9,3.3,-1.3,-0.3,-1.3,-0.3,3.6,4.8,2.6,2.6}},
{"CDLSHOOTINGSTAR", {0,1.25,-0.75,0.5,0.5,1,0.5,1,0.5,1.75,0.5,1.5,0.75,2.5,0.75,1.75,2.05,2.07,1.65,2.07,3.07,3.49,3.04,3.09}},
{"CDLSHOOTINGSTAR", {0,0.75,-2.5,-2,-1.5,-0.75,-2.5,-2,-2.5,-2,-2.5,-2,-2.5,-2.5,-5.25,-4.5,-5.25,-4.75,-5.25,-5.25,-5,-4.25,-5,-5}},
{"CDLSHOOTINGSTAR", {0,3,-2.4,-2.4,-2.15,-1.65,-3.4,-2.65,-3.65,-3.4,-4.15,-3.65,-4.4,-2.4,-4.9,-2.9,-3.4,-3.15,-3.4,-3.4,-2.4,-2.15,-2.4,-2.4}},
{"CDLSHOOTINGSTAR", {0,3,-0.42,-0.02,6.7,7.1,3.6,3.6,4.6,4.6,2.2,2.2,2.5,4.3,2.5,4.3,4.55,6.05,3.8,6.05,6.8,7.05,6.8,6.8}},
{"CDLSHOOTINGSTAR", {0,0.75,-1,-0.5,0.5,0.5,-1.5,-1,1.5,4.52,0.3,1.52,7.02,7.02,-2.2,-1.8,-1.8,1.52,-3,1.52,4.02,4.07,4.02,4.04}},
{"CDLSHORTLINE", {0,1.73,-3,1.7,-0.77,-0.74,-6.87,-3.87,-3.87,-1.5,-4.27,-2.7,0,1.2,-3.74,-0.74,-1.74,-0.99,-2.24,-2.24,-1.49,-0.24,-1.99,-0.49}},
{"CDLSHORTLINE", {0,0.25,-1.25,-1,-0.75,-0.25,-2.75,-2.75,-3.5,-2.75,-5.5,-5.5,-4.75,-3.25,-5.5,-3.25,-3.25,-1.75,-3.5,-1.75,-2.75,-2.75,-2.75,-2.75}},
{"CDLSHORTLINE", {0,1.2,-0.02,-0.02,-2.5,3,-2.5,0,-2.8,0.8,-4,-0.4,-0.1,1.33,-0.5,1.3,-0.1,0.3,-0.13,-0.1,0.15,1.65,-0.1,1.15}},
{"CDLSHORTLINE", {0,3,-3,0,0.25,1.45,-3.75,-0.75,0.25,0.65,-0.4,0,0.65,3.7,0.62,3.3,11.45,14.2,11.45,13.45,12.7,12.95,12.2,12.7}},
{"CDLSHORTLINE", {0,0.03,-4.75,-1.75,-2.25,-1.72,-2.25,-1.75,-1.75,2.95,-4.75,-0.05,-0.8,1.45,-1.05,1.2,0.7,3.2,0.2,2.7,2.2,2.7,2.2,2.2}},
{"CDLSHORTLINE", {0,0.25,-2,-1.5,-2,-1.25,-3.5,-3.5,-4.25,-3.5,-4.5,-4.25,-4.75,-3,-5.5,-3.75,-4.75,-4.5,-6,-5.75,-6.5,-6.5,-6.5,-6.5}},
{"CDLSHORTLINE", {0,0,-2.25,-2,-1.5,-1.25,-2.5,-2.5,-3.5,-3,-5.25,-5,-5.25,-5.25,-6.75,-6.75,-7.5,-7,-9.75,-9.5,-9.5,-9.25,-10.25,-10}},
{"CDLSHORTLINE", {0,0.4,-2.8,-2.4,-0.3,3.3,-0.3,2.1,-2.5,2.4,-2.53,-0.6,-1.1,0.15,-1.35,-0.6,-0.1,0.9,-0.85,0.4,-0.35,-0.1,-2.35,-1.85}},
{"CDLSHORTLINE", {0,0.25,-2.25,-1.5,-2.25,-2.25,-3.25,-3.25,-3.25,-1.75,-4,-1.75,-2.25,-1.5,-2.25,-1.75,-1.75,-1.25,-4.5,-3.75,-3.75,-3.5,-4.75,-4.75}},
{"CDLSHORTLINE", {0,0.25,-0.5,0,-2.25,-1.25,-2.5,-1.25,-2.25,-1.75,-2.5,-2.25,-2,-1.25,-3.25,-2.5,-2.5,-1.75,-3.5,-3,-2,-2,-3.25,-2.5}},
{"CDLSHORTLINE", {0,0.75,-1.75,-1,-1.25,-0.5,-3,-2.25,-2.75,-2.25,-3,-2.25,-2.75,-2,-3,-2.75,-3.5,-3,-5.25,-5,-2.5,-2.47,-3.6,-3.2}},
{"CDLSHORTLINE", {0,0,-0.5,-0.5,-0.25,0.5,-2.5,-2.25,-2.5,-2,-2.5,-2,-2.75,-2.75,-4,-3.25,-4.25,-3.5,-4.5,-3.75,-3,-2.75,-3.75,-3.5}},
{"CDLSPINNINGTOP", {0,1.5,-0.5,1.5,2,2.25,0.25,1,1,2.5,1,2.5,1.05,2.55,1.02,2.55,0.05,2.45,0.02,2.45,2.45,5.6,1.25,2.6}},
{"CDLSPINNINGTOP", {0,0.75,-2.75,-2,-1.75,1,-1.75,0.25,1.25,2.75,0.75,2.25,6.7,7.7,6.45,7.7,8.7,8.95,7.95,8.2,7.7,7.95,7.2,7.7}},
{"CDLSPINNINGTOP", {0,1.52,0,1.52,0,0,-2.4,-2.4,-1.65,-0.65,-2.4,-0.65,0.35,0.35,-0.9,-0.15,-1.15,-0.9,-1.65,-1.15,-0.15,1.1,-0.9,0.35}},
{"CDLSPINNINGTOP", {0,3,-3,0,0.25,1.45,-3.75,-0.75,0.25,0.65,-0.4,0,0.65,3.7,0.62,3.3,11.45,14.2,11.45,13.45,12.7,12.95,12.2,12.7}},
{"CDLSPINNINGTOP", {0,1,0,0.5,0,0.75,-0.5,0,0.75,1.5,-1,-0.25,-0.5,0.25,-2.25,-1.5,-2,-1.5,-2.25,-1.5,-2,-1.25,-2.25,-2}},
{"CDLSPINNINGTOP", {0,2,0,1.5,1.75,3,1.25,2.25,1.75,1.75,0.5,1.25,2,4.25,2,3.5,2,2.4,-0.8,-0.4,-0.85,2.2,-3.85,-0.8}},
{"CDLSPINNINGTOP", {0,0,-1.5,-1,-1.55,3.85,-4.55,0.85,4.15,5.88,1.15,5.85,3.38,3.41,-2.72,0.28,0.28,2.65,-0.12,1.45,4.15,5.35,0.41,3.41}},
{"CDLSPINNINGTOP", {0,0,-1,-0.5,-0.3,0.7,-0.33,0.7,-0.3,1.03,-0.33,1,3.5,4.7,-3.3,-0.3,-3.6,-0.3,-3.6,-0.33,-3.55,-3.15,-4.8,-3.6}},
{"CDLSPINNINGTOP", {0,2.25,-0.75,2,2,3.25,1.75,3,2.75,3.5,1.75,2.25,2.25,3.45,1.97,2,1.25,1.65,0.25,0.25,0.95,2.15,-2.25,0.75}},
{"CDLSPINNINGTOP", {0,0.75,-0.75,0,0.5,2,-0.25,2,-11.25,-10.75,-11.75,-11.25,-11.2,3.75,-11.23,0.75,0.75,2.45,0.72,2.45,2.45,2.85,0.95,2.15}},
{"CDLSPINNINGTOP", {0,2.25,-0.75,1.5,1.5,3.5,1.25,3,4,4.4,3.45,3.45,3.95,6.97,3.92,3.97,4.97,4.97,3.92,3.95,5.02,6.22,2.72,3.92}},
{"CDLSPINNINGTOP", {0,1,-0.25,1,1.25,1.75,-0.25,0.25,1,1,-1.25,-0.5,-0.5,0.25,-2.75,-2,-1.5,-0.75,-2.75,-2,-2,-1.25,-3.25,-2.5}},
{"CDLSTALLEDPATTERN", {0,0.4,-5.5,-2.5,-2.25,2.55,-5.25,2.52,-2.25,-1.55,-2.25,-1.95,-2.25,2.55,-5.25,2.55,1.8,4.05,1.3,3.8,4.55,6.05,4.55,6.05}},
{"CDLSTALLEDPATTERN", {0,1.25,-0.75,0.5,1.5,3.5,1,3.5,3.25,6,2.75,5.25,5.25,7.5,4.5,7.25,6.5,8.75,6,8.5,9,12.02,6,9.02}},
{"CDLSTALLEDPATTERN", {0,5.85,0,2.85,4.35,4.35,2.95,3.35,1,1,1,1,0.95,2.85,-2.05,2.85,2.85,4.35,2.1,4.35,4.1,5.1,3.85,4.6}},
{"CDLSTALLEDPATTERN", {0,3,-5.78,-5.75,0.5,0.52,-0.7,0.52,-5.3,0.52,-5.3,0.52,-5.6,0.72,-5.6,-0.48,-2.8,1.55,-2.83,1.52,2.02,3.27,1.52,3.02}},
{"CDLSTALLEDPATTERN", {0,1.73,-0.03,1.7,0.7,1.95,-0.05,1.7,2.45,3.95,1.95,3.45,2.7,4.7,2.45,4.2,3.2,5.2,2.7,5.2,5.45,5.95,4.95,5.45}},
{"CDLSTALLEDPATTERN", {0,1.4,-3,1,1.3,3.5,0.1,3.5,1.85,3.8,1.85,3.8,-2.45,-0.72,-2.45,-0.75,-0.25,1.75,-1,1.75,2,2.5,1.25,2.5}},
{"CDLSTICKSANDWICH", {0,0.03,-6.1,-3.1,-3.1,-0.73,-3.5,-1.93,0.77,1.97,-2.97,0.03,-0.97,-0.22,-1.47,-1.47,-0.72,0.53,-1.22,0.28,-0.22,0.03,-1.22,-1.22}},
{"CDLSTICKSANDWICH", {0,1,-3,1,1,5,0.6,2,2.3,2.3,-0.6,0.6,0.35,1.1,-1.9,-1.65,-0.9,-0.15,-1.4,-0.9,-0.65,-0.15,-1.65,-1.65}},
{"CDLSTICKSANDWICH", {0,0.75,-1.25,-1,-2,-0.5,-2,-1,-1.75,-1.75,-2.5,-2.25,-2.45,-2.42,-6.05,-4.85,-3.55,1.85,-4.75,-1.15,-4.85,-4.45,-4.87,-4.87}},
{"CDLSTICKSANDWICH", {0,0.25,-1.5,-1.5,-1,-0.5,-1.5,-1.5,-1,-0.75,-2.25,-2,-1,-0.75,-3.75,-3,-1,0.45,-2.2,-0.75,-1.7,1.3,-2.95,-2.95}},
{"CDLSTICKSANDWICH", {0,0,-1.25,-0.5,0.25,1,-2,-1.25,-0.75,-0.25,-2.25,-1.75,-1.5,-0.75,-3.5,-3,-2,-1.25,-2.5,-2,-2,-1.25,-3,-3}},
{"CDLSTICKSANDWICH", {0,0,-1,-0.5,-1.25,-0.75,-2,-0.75,-1.25,-1.25,-4,-3.25,-2.5,-1.75,-3.75,-3,-2.25,-2.25,-2.25,-2.25,-2.5,-2.5,-3.75,-3}},
{"CDLTAKURI", {0,0.75,-0.5,0,0.75,0.75,-0.25,-0.25,-0.25,0.5,-1.75,-1.75,-2.25,-1.75,-4.75,-4.25,-5.25,-4.5,-5.5,-4.75,-4.75,-4.75,-5,-4.75}},
{"CDLTAKURI", {0,0,-1.75,-1,-2,0.25,-2.5,0,-1,0.75,-1.25,0.5,1.25,1.25,0.75,1.25,1.75,2.5,0,0.75,1.25,1.25,1,1.25}},
{"CDLTAKURI", {0,0,-2.15,-2.15,-2.45,0.55,-4.85,-4.85,-4.6,-4.1,-7.35,-6.6,-6.1,-4.1,-6.1,-4.6,-5.6,-5.35,-7.35,-7.1,-6.6,-6.35,-6.85,-6.6}},
{"CDLTAKURI", {0,0.5,-1.75,-1.5,-0.5,2.25,-1.25,1.5,0.5,0.75,-1.25,-1,0,2.25,-0.75,1.5,1.25,1.5,-0.75,-0.25,0.5,0.75,0,0.5}},
{"CDLTAKURI", {0,0.25,-2,-1.5,0.25,0.5,-2.75,0.5,-3.75,-2.55,-4.75,-4.75,-3.8,-2.1,-6.8,-2.1,-2.15,0.85,-6.85,-3.85,-2.1,-2.1,-2.52,-2.12}},
{"CDLTAKURI", {0,1.75,-0.25,1,0,0.75,-2.75,-2,-1.25,-0.5,-2.25,-2.25,-2.75,-1.25,-3.25,-1.75,-1.5,-1.25,-3.25,-3,-3.5,-3.5,-3.75,-3.5}},
{"CDLTASUKIGAP", {0,1,-0.25,1,0.5,1.5,0.5,1.5,1,2.5,0.5,2,3,3.75,2.25,3,4,5.75,4,5,4.75,5.25,3.5,3.75}},
{"CDLTASUKIGAP", {0,2.25,-0.5,2,2.5,2.5,2.5,2.5,3.5,3.75,3,3.5,2.75,3,2.25,2.25,3.25,5,3,4.25,3.95,6.95,3.05,3.05}},
{"CDLTASUKIGAP", {0,1.5,-0.75,1,0,0.5,-2.5,-2,-3,-2.75,-4,-4,-4.25,-3.25,-5,-3.75,-2.75,-0.75,-3.5,-1.25,-2,-1.25,-4,-3.5}},
{"CDLTASUKIGAP", {0,2.75,-0.25,2,1,1.25,-1,-1,-1.25,0.5,-1.25,0.25,-3.75,-0.75,-6.85,-6.85,0.25,1.95,0.25,1.95,1.25,1.25,-0.05,-0.05}},
{"CDLTASUKIGAP", {0,0.75,-1.25,-1,-0.5,0,-0.5,0,0.75,1,0,0.25,0.5,1.25,-0.25,0.5,1.25,2.75,1.25,2.25,1.75,1.75,0.5,0.75}},
{"CDLTASUKIGAP", {0,3.03,-1.2,3,3,3.03,-0.9,0.3,2,2.23,1.97,2.2,-0.9,5.2,-3.9,2.2,3.2,5.2,2.95,5.2,4.7,5.2,2.2,2.7}},
{"CDLTASUKIGAP", {0,4.98,-3,4.95,5.2,6.95,4.45,6.7,5.95,6.45,3.7,3.95,3.45,3.45,2.45,2.45,1.45,1.45,-0.05,0.45,0.7,2.7,-0.05,2.2}},
{"CDLTASUKIGAP", {0,0.75,-1.25,-1,-0.5,-0.25,-1.25,-1,-0.75,-0.25,-2.25,-1.75,-1.5,-1.5,-2,-1.5,-2.25,-2,-4.5,-3.75,-3.5,-1.75,-3.5,-2}},
{"CDLTASUKIGAP", {0,1.22,0,0.02,1.5,4.8,1.5,1.8,0.5,0.53,-1.13,0.07,0.5,0.5,-2.93,0.07,-2,-1.6,-6.7,-3.7,-3.2,-1.7,-3.45,-1.7}},
{"CDLTASUKIGAP", {0,0.03,-1,-1,4.45,4.45,-0.7,-0.7,-0.75,2.25,-4.7,-3.5,5.3,6.52,4.9,5.32,4.82,5.07,3.07,3.32,3.57,5.57,3.32,5.07}},
{"CDLTASUKIGAP", {0,0.75,-2.25,-1.5,-2,-1.25,-2.75,-2,-3,-2.25,-3,-3,-3.5,-3,-4.5,-4.5,-5.5,-4.75,-8.25,-7.5,-6.75,-4.5,-7.5,-4.75}},
{"CDLTASUKIGAP", {0,0.5,0,0,0,0.5,-0.4,0.5,1.5,1.9,-1,0.2,2.9,6,2.5,6,0.33,0.33,-1.92,-1.67,-1.62,0.38,-4.62,0.38}},
{"CDLTHRUSTING", {0,3.15,-1.2,0.15,-2.5,1.55,-5.5,-1.45,-2.45,-2.45,-8.55,-5.55,-4.55,-2.55,-4.8,-3.05,-3.55,-2.8,-5.55,-5.55,-6.55,-4.05,-6.8,-4.55}},
{"CDLTHRUSTING", {0,1.2,-3,0,0.05,1.25,-0.95,-0.95,-1.2,-0.7,-1.7,-1.7,-0.95,-0.2,-2.7,-2.45,-1.95,-1.7,-4.7,-3.95,-4.95,-2.45,-5.45,-2.95}},
{"CDLTHRUSTING", {0,0.5,-1.5,-1,-1,0.75,-1.5,0.5,1.5,3.75,1.5,3.5,0.5,1.7,-1.4,-1,0,0.4,-2.03,-2,-4.53,-0.2,-5.73,-1.4}},
{"CDLTHRUSTING", {0,0.5,-2.25,-2,-1.5,-0.75,-2.5,-2,-2,0.75,-2.25,0,0.75,1.25,0.75,1.25,0.75,1.5,-1.5,-1.25,-1.75,0.25,-2.5,-0.25}},
{"CDLTHRUSTING", {0,3,-5.8,-4.6,3,3.03,-1.63,-1.6,3,3,-1.7,1.3,-0.7,1.33,-0.73,1.3,0.3,0.8,-1.7,-1.7,-2.45,-0.95,-2.45,-0.95}},
{"CDLTHRUSTING", {0,1.5,0,1,-9.37,-6.62,-9.87,-7.37,-7.12,-5.37,-7.12,-5.62,-6.62,-6.12,-8.62,-8.12,-8.62,-8.62,-10.62,-10.62,-11.12,-9.37,-11.37,-9.62}},
{"CDLTRISTAR", {0,0.5,-2.5,-2,4.75,5.15,1.35,2.55,2.25,4.75,1.05,4.75,3.75,4.15,3.73,3.73,2.5,2.5,1.28,2.48,3.45,3.45,3.03,3.43}},
{"CDLTRISTAR", {0,3.02,-0.03,0.02,-0.28,12.35,-0.28,9.35,10.35,11.55,0.04,0.07,0.07,0.57,-0.68,0.07,-0.43,-0.18,-0.43,-0.43,0.57,1.07,-0.68,0.07}},
{"CDLTRISTAR", {0,1.2,-4.9,-3.7,-3.4,-0.4,-4.98,-4.95,11.5,11.5,11,11.5,11.45,11.47,8.45,11.47,10.47,10.9,9.27,10.5,11.25,11.75,11,11.25}},
{"CDLTRISTAR", {0,1.75,-0.5,1,0,0.25,-2.75,-2,0,4.05,0,1.05,-1.45,1.55,-2.67,-1.47,-3.97,-2.77,-4.02,-3.99,-1.49,-0.29,-4.51,-1.51}},
{"CDLTRISTAR", {0,1.2,-15.02,-13.82,-14.57,-12.57,-15.07,-13.07,-14.07,-13.32,-15.07,-15.07,-15.32,-14.07,-16.07,-14.82,-15.57,-15.07,-15.57,-15.57,-15.32,-14.07,-15.57,-14.82}},
{"CDLTRISTAR", {0,0.5,-2.25,-2,-2.5,-1.75,-3.25,-3,-2.75,-2,-3.75,-3.75,-3.7,-0.7,-4.12,-3.72,-5.12,-4.72,-6.34,-5.14,-1.75,-1.72,-2.97,-1.77}},
{"CDLTRISTAR", {0,0.25,-2.25,-1.5,-2,-1.25,-3.5,-3,-2.5,-1,-2.5,-1,-1.75,-1.5,-2.5,-1.75,-1.5,-0.75,-1.75,-1.5,-1.75,-1.75,-2,-1.75}},
{"CDLTRISTAR", {0,0.25,-1.25,-0.5,-0.5,0,-1,-1,0.25,0.53,0.25,0.5,-3,-1.8,-3.02,-3.02,-0.7,-0.7,-0.72,-0.72,-0.72,-0.32,-1.94,-0.74}},
{"CDLTRISTAR", {0,1.75,-0.5,1.5,1.25,1.75,1.25,1.75,2.25,2.75,1.5,2.75,3.25,3.5,3.25,3.25,4,4.5,3.5,4,3.75,4.5,3.75,3.75}},
{"CDLTRISTAR", {0,0,-1.5,-1,-0.5,0.25,-2.5,-2.5,-3.25,-3,-4,-3.25,-4,-2.8,-4.05,-4.02,-0.75,-0.73,-1.95,-0.73,-0.78,2.22,-1.2,-0.8}},
{"CDLTRISTAR", {0,0,-2.75,-2,-1.25,0.5,-1.25,-0.25,0.75,0.75,0.25,0.75,0.25,1,0.25,0.25,1,1.5,1,1,0.25,0.25,-0.5,0.25}},
{"CDLTRISTAR", {0,0.75,-1.75,-1,-1.5,1,-1.75,0.5,1,1.25,-1,-1,-0.5,0.25,-0.5,-0.5,-0.25,0.5,-0.75,-0.25,-12.07,-11.82,-12.57,-12.07}},
{"CDLUNIQUE3RIVER", {0,0.4,0,0,-0.25,2.88,-1.45,2.85,-1.45,1.3,-1.48,0.1,-0.5,-0.5,-3.98,-3.95,-1.48,-1.45,-4.38,-3.18,-3.68,-2.93,-4.43,-3.68}},
{"CDLUNIQUE3RIVER", {0,0,-10.46,-10.46,-7.96,-1.3,-10.96,-2.5,-2.2,-2.2,-11.96,-11.96,-2.15,0.85,-9.96,-9.96,-8.96,-8.46,-10.21,-9.46,-9.21,-8.96,-9.46,-9.21}},
{"CDLUNIQUE3RIVER", {0,1.03,-0.03,1,1.85,3.05,-2.2,-2.2,-4.7,-1.57,-4.7,-1.6,2.35,2.35,-2.65,-2.25,2.35,5.35,-2.77,-1.57,-2.07,0.18,-2.82,-0.57}},
{"CDLUNIQUE3RIVER", {0,0.4,-1.22,-0.02,1.28,1.68,0.86,1.26,1.98,4.88,1.98,3.68,4.68,5.88,0.86,0.86,3.36,3.39,-0.5,2.5,3,3.5,2.25,3}},
{"CDLUNIQUE3RIVER", {0,2.5,-0.25,2,2.25,3.5,2,2.75,2.25,5.25,2,2,5.2,5.23,0.75,1.95,2.95,2.98,-0.27,2.73,7.7,8.7,7.2,8.2}},
{"CDLUNIQUE3RIVER", {0,2.25,-0.25,2,-0.95,0.05,-3.95,0.05,-1.95,-1.95,-3,-3,-2.5,-2.5,-4.65,-4.25,-2.8,0.2,-5.82,-2.82,-3.12,-2.17,-6.12,-2.2}},
{"CDLUPSIDEGAP2CROWS", {0,0.02,0,0.02,2.5,5.5,0.8,0.8,0.8,2,-2.33,-2.3,-4.8,0.7,-4.83,-2.3,0.8,2,0.75,0.78,1.28,1.78,-0.97,-0.72}},
{"CDLUPSIDEGAP2CROWS", {0,0,-0.75,-0.5,0,0,-0.75,-0.5,0,1.5,-0.75,1.5,1,3,0.5,3,4,4.75,2.75,3.5,4.25,4.25,3,3.25}},
{"CDLUPSIDEGAP2CROWS", {0,2,-0.5,1.5,2.5,4.25,2,3.5,3.2,6.2,2.17,2.2,4.2,9.25,3,6.25,9.55,10.75,9.53,9.53,10.75,10.75,7.33,8.53}},
{"CDLUPSIDEGAP2CROWS", {0,2.7,-0.4,2.7,3.7,3.7,0.7,0.7,0.4,2.1,0.37,1.7,-0.4,1,-3.4,1,5.2,5.6,2.18,5.18,5.68,5.68,4.18,4.18}},
{"CDLUPSIDEGAP2CROWS", {0,1.25,-0.5,0.5,-0.25,-0.25,-2.5,-2.25,-3.25,-2.75,-5.5,-5.25,-7.75,-0.3,-10.75,-1.5,-0.3,0.9,-0.35,-0.35,0.65,0.65,-1.45,-1.45}},
{"CDLUPSIDEGAP2CROWS", {0,0.4,-4,-1,-0.3,-0.28,-0.7,-0.28,-0.3,-0.3,-2.4,-2,-2.75,-0.5,-3.25,-1.25,2.45,2.45,1.45,1.95,2.95,3.7,0.95,0.95}},
{"CDLXSIDEGAP3METHODS", {0,1.2,-3.1,-3.1,-1,0.03,-4,0,-4,-4,-7.6,-6.4,-6.7,-1.72,-9.7,-1.75,-1.5,0.25,-2.25,0,-0.75,-0.25,-3,-2.75}},
{"CDLXSIDEGAP3METHODS", {0,0.5,-0.5,0.5,0.5,1.25,0.25,1,0.75,1.5,-0.5,0.25,0.25,1.75,-0.5,1.75,2.5,3.75,2,3,2.75,3.5,0.75,0.75}},
{"CDLXSIDEGAP3METHODS", {0,1.85,-0.4,0.65,4.35,4.75,-0.3,-0.3,-0.65,0.4,-3.65,0,-0.6,2.25,-0.63,2.25,2.55,5.55,2.55,4.35,4.1,4.6,1.85,2.1}},
{"CDLXSIDEGAP3METHODS", {0,3,-3.1,-3.1,5.8,8.8,0.5,3.5,8.85,14.25,7.65,11.25,7.7,8.7,7.7,8.7,9.2,10.2,8.7,9.7,9.45,9.45,7.95,7.95}},
{"CDLXSIDEGAP3METHODS", {0,0,-1.7,-1.7,-4.45,-1.4,-4.85,-1.4,-0.9,-0.65,-1.65,-0.9,-0.15,0.6,-0.9,0.35,1.1,2.85,0.85,2.6,2.1,2.35,0.1,0.1}},
{"CDLXSIDEGAP3METHODS", {0,1.2,-0.42,-0.02,-0.02,0.73,-0.52,-0.52,-1.27,1.23,-1.27,0.73,0.48,2.98,-0.02,2.48,2.98,4.48,2.23,4.48,3.73,4.48,1.98,2.23}},
{"CDLXSIDEGAP3METHODS", {0,0.03,-1.73,-1.7,0.77,0.8,-4.4,-1.4,-0.73,0.5,-3.73,0.5,0.5,0.75,-1.75,-1,-1.5,-0.75,-3,-2.5,-2,-0.5,-2,-0.5}},
{"CDLXSIDEGAP3METHODS", {0,2.4,-3,2.4,2.45,3.1,2.45,2.7,2.45,2.45,0.75,0.75,1,1.75,-0.25,0,-0.5,0.25,-3.25,-2.5,-1.5,0.75,-2,0.5}},
{"CDLXSIDEGAP3METHODS", {0,1.5,-0.25,1,0,0,-1.25,-1,-1,-0.75,-1.75,-1.5,-1.75,-1,-3.75,-3.25,-4.25,-4.25,-5.25,-5.25,-4.5,-2.5,-5,-2.5}},
{"CDLXSIDEGAP3METHODS", {0,1,0,1,0.75,1.25,0,0.25,0.75,1.5,-1.25,-1.25,-1,-1,-2,-2,-2.5,-2,-4.5,-4,-3,-1,-3.25,-1.5}},
{"CDLXSIDEGAP3METHODS", {0,1,-0.5,0.5,1.5,3.5,1,3.5,3.75,5.25,3.75,4.75,5.25,6,3.5,3.75,3.55,3.95,-0.75,0.45,2.95,5.05,2.95,4.65}},
{"CDLXSIDEGAP3METHODS", {0,1,-0.5,0.5,1.5,1.5,0.5,0.5,0.5,1.25,-2,-1.5,-0.75,0,-2.25,-2.25,-2.75,-2.5,-4,-3.75,-3,-1.25,-3.75,-1.5}},
