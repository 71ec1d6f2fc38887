OPEN = [
    {"property": "X06", "status": "open", "case": "zero function$", "message": "^the mask is all zero$",
     "what": "sanitizing with the zero function gives a trivial ciphertext: a rotation of the all-zero table has a zero mask, and SanitizeLUTTo randomizes the output by multiplying it only (xtfhe/sanitization.go)"},
]
