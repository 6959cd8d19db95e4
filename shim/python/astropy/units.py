# stand-in: angles are plain floats in degrees
degree = 1.0
deg = 1.0
