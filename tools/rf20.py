import sys; sys.path.insert(0,'/tmp')
from mut import m
T='turbsim_file.py'; O='fast_output_file.py'; B='mannbox_file.py'
Q=dict(quiet=True)
m('r1','C20',(T,"                for it in range(nt):\n","                it=-1\n                while it < nt-1:\n                    it+=1\n"),(T,"np.frombuffer(f.read(2*3*ny*nz), dtype=np.int16)","np.array(struct.unpack('<%dh'%(3*ny*nz), f.read(6*ny*nz)))"),**Q)
m('r2','C20',(T,"u -= off[:, None, None, None]\n                u /= scl[:, None, None, None]\n                self['u']    = u","for k in range(3):\n                    u[k] = (u[k]-off[k])/scl[k]\n                self['u']    = u"),**Q)
m('r3','C20',(T,"f.write(out[:,it,:,:].tobytes(order='F'))","out[:,it,:,:].transpose().tofile(f)"),**Q)
m('r4','C20',(T,"f.write(out[:,it,:,:].tobytes(order='F'))","f.write(np.ascontiguousarray(out[:,it,:,:].T).tobytes())"),**Q)
m('r5','C20',(T,"            f.write(struct.pack('<h4l', ID, nz, ny, nTwr, nt))\n            f.write(struct.pack('<6f', dz, dy, dt, uHub, zHub, z0)) # NOTE uHub, zHub maybe not used\n","            f.write(struct.pack('<h4l6f', ID, nz, ny, nTwr, nt, dz, dy, dt, uHub, zHub, z0))\n"),**Q)
m('r6','C20',(T,"            ID, nz, ny, nTwr, nt                      = struct.unpack('<h4l', f.read(2+4*4))\n","            ID, = struct.unpack('<h', f.read(2))\n            nz, ny, nTwr, nt = np.frombuffer(f.read(16), dtype='<i4')\n"),**Q)
m('r7','C20',(T,"self['t']    = np.arange(nt)*dt","self['t']    = np.array([i*dt for i in range(nt)])"),**Q)
m('r8','C20',(T,"self['t']    = np.arange(nt)*dt","self['t']    = np.linspace(0, (nt-1)*dt, nt)"),**Q)
m('r9','C20',(O,"data[:,iCol+1] = (data[:,iCol+1] - ColOff[iCol]) / ColScl[iCol]","data[:,iCol+1] -= ColOff[iCol]\n                data[:,iCol+1] /= ColScl[iCol]"),**Q)
m('r10','C20',(O,"            while nIntRead<n:\n                nIntToRead = min(n-nIntRead, BufferSize)\n","            while True:\n                if nIntRead>=n: break\n                nIntToRead = min(n-nIntRead, BufferSize)\n"),**Q)
m('r11','C20',(O,"            while nIntRead<n:\n                nIntToRead = min(n-nIntRead, BufferSize)\n","            while n-nIntRead>0:\n                nIntToRead = BufferSize if n-nIntRead>BufferSize else n-nIntRead\n"),**Q)
m('r12','C20',(O,"                nLinesRead = nLinesRead + nLinesToRead\n                nIntRead   = nIntRead   + nIntToRead","                nIntRead   += nIntToRead\n                nLinesRead += nLinesToRead"),**Q)
m('r13','C20',(O,"            for iChan in range(nChannels):\n                packedData[:,iChan] = np.clip( ColScl[iChan]*dataWithoutTime[:,iChan]+ColOff[iChan], int16Min, int16Max)","            packedData = np.clip(dataWithoutTime*ColScl+ColOff, int16Min, int16Max).astype(np.int16)"),**Q)
m('r14','C20',(O,"fid.write(struct.pack('@{}h'.format(packedData.size), *packedData.flatten()))","fid.write(packedData.tobytes())"),**Q)
m('r15','C20',(O,"            for chan in chanNames:\n                ordchan = [ord(char) for char in chan]+ [32]*(10-len(chan))\n                fid.write(struct.pack('@10B', *ordchan))","            fid.write(b''.join([c.ljust(10).encode('latin-1') for c in chanNames]))"),**Q)
m('r16','C20',(O,"            for chan in chanNames:\n                ordchan = [ord(char) for char in chan]+ [32]*(10-len(chan))\n                fid.write(struct.pack('@10B', *ordchan))","            self_write = lambda s: fid.write(struct.pack('@10B', *([ord(c) for c in s]+[32]*(10-len(s)))))\n            for chan in chanNames:\n                self_write(chan)"),**Q)
m('r17','C20',(O,"mins   = np.min(dataWithoutTime, axis=0)","mins   = dataWithoutTime.min(axis=0)"),**Q)
m('r18','C20',(B,"            for ix in np.arange(nx):\n                data = np.flip(self['field'][ix,:,:],0).ravel() # We have to flip the y axis again\n                f.write(struct.pack(sfmt, *data))","            for plane in self['field']:\n                f.write(np.flip(plane,0).astype('<f4').tobytes())"),**Q)
m('r19','C20',(B,"            for ix in np.arange(nx):\n                data = np.flip(self['field'][ix,:,:],0).ravel() # We have to flip the y axis again\n                f.write(struct.pack(sfmt, *data))","            for ix in np.arange(nx):\n                for iy in range(ny):\n                    f.write(struct.pack('<%df'%nz, *self['field'][ix,ny-1-iy,:]))"),**Q)
m('r20','C20',(B,"self['field']= _read_buffered()","self['field']= _read_nonbuffered()"),**Q)
m('r21','C20',(B,"data[ix,:,:] =  np.flip(Buffer.reshape((ny,nz)),0)","data[ix] = Buffer.reshape((ny,nz))[::-1,:]"),**Q)
m('r22','C20',(B,"                for ix in range(nx):\n                    Buffer = np.frombuffer(f.read(4*ny*nz), dtype=np.float32) # 4-bytes\n                    data[ix,:,:] =  np.flip(Buffer.reshape((ny,nz)),0)","                raw = np.fromfile(f, dtype=np.float32, count=nx*ny*nz)\n                data[:] = raw.reshape((nx,ny,nz))[:,::-1,:]"),**Q)
m('r23','C20',(T,"            scl[0],off[0],scl[1],off[1],scl[2],off[2] = struct.unpack('<6f' , f.read(6*4))","            so = struct.unpack('<6f' , f.read(6*4)  )\n            for k in range(3):\n                scl[k] = so[2*k]\n                off[k] = so[2*k+1]"),**Q)
m('r24','C20',(T,"            scl[0],off[0],scl[1],off[1],scl[2],off[2] = struct.unpack('<6f' , f.read(6*4))","            so = np.array(struct.unpack('<6f' , f.read(6*4)))\n            scl[:] = so[0::2]\n            off[:] = so[1::2]"),**Q)
m('r25','C20',(T,"            if all_min == all_max:\n                scl[k] = 1\n            else:\n                scl[k] = intrng / (all_max-all_min)","            scl[k] = 1 if all_min==all_max else intrng / (all_max-all_min)"),**Q)
