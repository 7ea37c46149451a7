'''A stand-in: matplotlib isn't installed here, and mrcal needs one function of it'''
