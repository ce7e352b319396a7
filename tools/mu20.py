import sys; sys.path.insert(0,'/tmp')
from mut import m
T='turbsim_file.py'; O='fast_output_file.py'; B='mannbox_file.py'
m('t1','C20',(T,"'<h4l', ID, nz, ny, nTwr, nt","'<h4l', ID, ny, nz, nTwr, nt"))
m('t2','C20',(T,"'<6f', dz, dy, dt, uHub, zHub, z0","'<6f', dy, dz, dt, uHub, zHub, z0"))
m('t3','C20',(T,"order='F')\n                    u[:","order='C')\n                    u[:") ,) if 0 else None
m('t4','C20',(T,".reshape([3, ny, nz], order='F')",".reshape([3, ny, nz], order='C')"))
m('t5','C20',(T,"f.write(out[:,it,:,:].tobytes(order='F'))","f.write(out[:,it,:,:].tobytes())"))
m('t6','C20',(T,"u /= scl[:, None, None, None]","u /= scl[0]"))
m('t7','C20',(T,"uTwr -= off[:, None, None]\n","uTwr -= off[0]\n"))
m('t8','C20',(T,"np.frombuffer(f.read(2*3*nTwr), dtype=np.int16)","np.frombuffer(f.read(2*3*nTwr), dtype=np.uint16)"))
m('t9','C20',(T,"self['zTwr'] =-np.arange(nTwr)*dz + zBottom","self['zTwr'] =-np.arange(nTwr)*dz - zBottom"))
m('t10','C20',(T,"intrng = 65535","intrng = 65536"))
m('t11','C20',(T,"off[k]    = intmin - scl[k] * all_min","off[k]    = intmin - scl[0] * all_min"))
m('t12','C20',(T,"z0 = self['z'][0]","z0 = self['z'][-1]"))
m('t13','C20',(T,"np.arange(nt)*dt\n","np.arange(nt)*dt+dt\n"))
m('t14','C20',(T,"f.write(outTwr[:,it,:].tobytes(order='F'))","f.write(outTwr[:,it,:].T.tobytes(order='F'))"))
m('t15','C20',(T,"self['ID']   if 'ID'   in self.keys() else 7","8"))
m('o1','C20',(O,"struct.pack('@i',nChannels)","struct.pack('@h',nChannels)"))
m('o2','C20',(O,"(data - ColOff) / ColScl","(data - ColScl) / ColOff"))
m('o3','C20',(O,"data[:,iCol+1] = (data[:,iCol+1] - ColOff[iCol]) / ColScl[iCol]","data[:,iCol+1] = (data[:,iCol+1] - ColOff[iCol]) * ColScl[iCol]"))
m('o4','C20',(O,"(np.array(PackedTime) - TimeOff) / TimeScl","np.array(PackedTime) / TimeScl - TimeOff"))
m('o5','C20',(O,"for iChan in range(NumOutChans + 1):\n            ChanUnitASCII","for iChan in range(NumOutChans):\n            ChanUnitASCII"))
m('o6','C20',(O,"ChanUnitASCII = fread(fid, LenName, 'uint8')","ChanUnitASCII = fread(fid, 10, 'uint8')"))
m('o7','C20',(O,"np.clip( ColScl[iChan]*dataWithoutTime[:,iChan]+ColOff[iChan], int16Min, int16Max)","ColScl[iChan]*dataWithoutTime[:,iChan]+ColOff[iChan]"))
m('o8','C20',(O,"ColScl[iChan]*dataWithoutTime[:,iChan]+ColOff[iChan]","ColScl[iChan]*dataWithoutTime[:,iChan]-ColOff[iChan]"))
m('o9','C20',(O,"dataWithoutTime = channels[:,1:]","dataWithoutTime = channels[:,:-1]"))
m('o10','C20',(O,"data[ nLinesRead:(nLinesRead+nLinesToRead),","data[ nLinesRead:(nLinesRead+nLinesPerBuffer),"),)
m('o11','C20',(O,"nLinesRead = nLinesRead + nLinesToRead\n","nLinesRead = nLinesRead + nLinesToRead-1\n"))
m('o12','C20',(O,"timeIncr  = time[1]-time[0]","timeIncr  = time[2]-time[0]"))
m('o13','C20',(O,"struct.pack('@{}f'.format(nChannels), *ColScl))","struct.pack('@{}f'.format(nChannels), *ColOff))"))
m('o14','C20',(O,"*packedData.flatten()","*packedData.T.flatten()"))
m('o15','C20',(O,"*packedData.flatten()","*packedData.flatten(order='F')"))
m('o16','C20',(O,"'int32':('i', 4), 'float32':('f', 4), 'float64':('d', 8)}[type]\n        return","'int32':('I', 4), 'float32':('f', 4), 'float64':('d', 8)}[type]\n        return"))
m('o17','C20',(O,"TimeOut1 + TimeIncr * np.arange(NT)","TimeOut1 + TimeIncr * np.arange(1,NT+1)"))
m('b1','C20',(B,"data[ix,:,:] =  np.flip(Buffer.reshape((ny,nz)),0)","data[ix,:,:] =  np.flip(Buffer.reshape((ny,nz)),1)"))
m('b2','C20',(B,"data[ix,:,:] =  np.flip(Buffer.reshape((ny,nz)),0)","data[ix,:,:] =  np.flip(Buffer.reshape((nz,ny)).T,0)"))
m('b3','C20',(B,"np.flip(self['field'][ix,:,:],0).ravel()","np.flip(self['field'][ix,:,:],0).ravel(order='F')"))
m('b4','C20',(B,"np.flip(self['field'][ix,:,:],0).ravel()","self['field'][ix,:,:].ravel()"))
m('b5','C20',(B,"sfmt='<{:d}f'.format(ny*nz)","sfmt='<{:d}d'.format(ny*nz)"))
m('b6','C20',(B,"np.flip(self['field'][ix,:,:],0).ravel()","np.flip(self['field'][nx-1-ix,:,:],0).ravel()"))

m('t16','C20',(T,"ts[k].min(), ts[k].max()","ts[0].min(), ts[0].max()"))
m('t17','C20',(T,"intrng / (all_max-all_min)","intrng / (all_max+all_min)"))
m('t18','C20',(T,"all_max=max(all_max, tsTwr[k].max())","all_max=max(all_max, tsTwr[0].max())"))
m('o20','C20',(O,"np.single(mins)*ColScl","np.single(mins[0])*ColScl"))
m('o21','C20',(O,"np.min(dataWithoutTime, axis=0)","np.min(channels, axis=0)[:-1]"))
