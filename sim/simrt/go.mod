module verif.local/simrt

go 1.20
