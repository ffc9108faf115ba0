"""Measured run times on the idle 8-core sandbox, and what catches a planted bug when it is not (only) its own property's check."""
QUICK = {"C01": "24 s", "C02": "28 s", "C03": "12 s", "C04": "110 s", "C05": "100 s", "C06": "51 s", "C07": "45 s", "C08": "28 s", "C09": "22 s", "C10": "21 s", "C11": "13 s", "C12": "76 s", "C13": "10 s", "C14": "61 s", "C15": "150 s", "C16": "85 s", "C17": "150 s", "C18": "20 s", "C19": "150 s", "C20": "17 s", "C21": "105 s", "C22": "75 s", "C23": "85 s", "C24": "25 s", "C25": "40 s", "C26": "75 s", "C27": "40 s", "C28": "45 s", "C29": "20 s", "C30": "15 s"}
THOROUGH = {}
CAUGHT = {}
