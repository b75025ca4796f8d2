module verif/vsched

go 1.21
