module godump

go 1.23
