module yield

go 1.21
