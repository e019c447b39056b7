module goslideverif

go 1.21
