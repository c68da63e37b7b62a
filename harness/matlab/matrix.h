/* stands in for the header of the MATLAB matrix library: Octave declares its contents in mex.h */
