module verif.local/mkoverlay

go 1.23
