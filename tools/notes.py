DONE = ["W01", "W02", "W03", "W04", "W05", "W06", "W07", "W08", "C01", "C02", "C03", "C04", "C05", "C06", "M02",
        "F01", "F02", "F03", "F04", "F05", "L01", "L02", "L03", "L04", "L05", "L06", "L07", "L08",
        "K01", "K02", "K03", "K04", "K05", "M01", "G01", "D01"]
NA = {}
