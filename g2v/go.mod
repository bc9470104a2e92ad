module g2v

go 1.23
