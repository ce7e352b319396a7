from rfall import rf
rf('bts-read', ('turbsim_file.py', """        scl = np.zeros(3, np.float32); off = np.zeros(3, np.float32)
        with open(self.filename, mode='rb') as f:            
            # Reading header info
            ID, nz, ny, nTwr, nt                      = struct.unpack('<h4l', f.read(2+4*4))
            dz, dy, dt, uHub, zHub, zBottom           = struct.unpack('<6f' , f.read(6*4)  )
            scl[0],off[0],scl[1],off[1],scl[2],off[2] = struct.unpack('<6f' , f.read(6*4))
            nChar, = struct.unpack('<l',  f.read(4))
            info = (f.read(nChar)).decode()
            # Reading turbulence field
            if not header_only: 
                u    = np.zeros((3,nt,ny,nz))
                uTwr = np.zeros((3,nt,nTwr))
                # For loop on time (acts as buffer reading, and only possible way when nTwr>0)
                for it in range(nt):
                    Buffer = np.frombuffer(f.read(2*3*ny*nz), dtype=np.int16).astype(np.float32).reshape([3, ny, nz], order='F')
                    u[:,it,:,:]=Buffer
                    Buffer = np.frombuffer(f.read(2*3*nTwr), dtype=np.int16).astype(np.float32).reshape([3, nTwr], order='F')
                    uTwr[:,it,:]=Buffer
                u -= off[:, None, None, None]
                u /= scl[:, None, None, None]
                self['u']    = u
                uTwr -= off[:, None, None]
                uTwr /= scl[:, None, None]
                self['uTwr'] = uTwr
""", """        def unpack(fid, fmt):
            return struct.unpack(fmt, fid.read(struct.calcsize(fmt)))

        def counts(fid, shape):
            n = int(np.prod(shape))
            return np.frombuffer(fid.read(2*n), dtype=np.int16).astype(np.float32).reshape(shape, order='F')

        with open(self.filename, 'rb') as f:
            ID, nz, ny, nTwr, nt            = unpack(f, '<h4l')
            dz, dy, dt, uHub, zHub, zBottom = unpack(f, '<6f')
            scalings = np.array(unpack(f, '<6f'), dtype=np.float32)
            scl, off = scalings[0::2], scalings[1::2]
            nChar = unpack(f, '<l')[0]
            info  = f.read(nChar).decode()
            if not header_only:
                u    = np.zeros((3,nt,ny,nz))
                uTwr = np.zeros((3,nt,nTwr))
                for it in range(nt):
                    u[:,it,:,:]  = counts(f, (3, ny, nz))
                    uTwr[:,it,:] = counts(f, (3, nTwr))
                self['u']    = (u - off[:, None, None, None])/scl[:, None, None, None]
                self['uTwr'] = (uTwr - off[:, None, None])/scl[:, None, None]
"""))
rf('bts-write', ('turbsim_file.py', """        for k in range(3):
            all_min, all_max = ts[k].min(), ts[k].max()
            if nTwr>0:
                all_min=min(all_min, tsTwr[k].min())
                all_max=max(all_max, tsTwr[k].max())
            if all_min == all_max:
                scl[k] = 1
            else:
                scl[k] = intrng / (all_max-all_min)
            off[k]    = intmin - scl[k] * all_min
            # NOTE: limited to the int16 range, since rounding of off & scl (float32) may lead to values slightly outside of it
            out[k]    = np.clip(ts[k]    * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
            outTwr[k] = np.clip(tsTwr[k] * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
        z0 = self['z'][0]
""", """        def pack(values, k):
            scaled = values*scl[k] + off[k]
            return np.clip(scaled, intmin, intmin+intrng).astype(np.int16)

        for k in range(3):
            vmin, vmax = np.min(ts[k]), np.max(ts[k])
            if nTwr:
                vmin, vmax = min(vmin, np.min(tsTwr[k])), max(vmax, np.max(tsTwr[k]))
            scl[k] = intrng / (vmax-vmin) if vmin != vmax else 1
            off[k] = intmin - scl[k] * vmin
            out[k]    = pack(ts[k], k)
            outTwr[k] = pack(tsTwr[k], k)
        z0 = self['z'][0]
"""), ('turbsim_file.py', """            f.write(struct.pack('<6f', scl[0],off[0],scl[1],off[1],scl[2],off[2]))
            info = info.encode()
            f.write(struct.pack('<l' , len(info)))
            f.write(info)
            try:
                for it in np.arange(nt):
                    f.write(out[:,it,:,:].tobytes(order='F'))
                    f.write(outTwr[:,it,:].tobytes(order='F'))
            except:
                for it in np.arange(nt):
                    f.write(out[:,it,:,:].tostring(order='F'))
                    f.write(outTwr[:,it,:].tostring(order='F'))
""", """            for k in range(3):
                f.write(struct.pack('<2f', scl[k], off[k]))
            infoBytes = info.encode()
            f.write(struct.pack('<l', len(infoBytes)) + infoBytes)
            for it in range(nt):
                for block in (out[:,it,:,:], outTwr[:,it,:]):
                    f.write(block.tobytes(order='F'))
"""))
rf('mann', ('mannbox_file.py', """            data=np.zeros((nx,ny,nz),dtype=np.float32)
            with open(self.filename, mode='rb') as f:            
                for ix in range(nx):
                    Buffer = np.frombuffer(f.read(4*ny*nz), dtype=np.float32) # 4-bytes
                    data[ix,:,:] =  np.flip(Buffer.reshape((ny,nz)),0)
            return data
""", """            nBytes = 4*ny*nz
            planes = []
            with open(self.filename, mode='rb') as fid:
                for _ in range(nx):
                    plane = np.frombuffer(fid.read(nBytes), dtype=np.float32).reshape((ny,nz))
                    planes.append(plane[::-1,:])
            return np.array(planes)
"""), ('mannbox_file.py', """        nx,ny,nz = self['field'].shape
        sfmt='<{:d}f'.format(ny*nz)
        with open(self.filename, mode='wb') as f:            
            for ix in np.arange(nx):
                data = np.flip(self['field'][ix,:,:],0).ravel() # We have to flip the y axis again
                f.write(struct.pack(sfmt, *data))
""", """        field = self['field']
        with open(self.filename, mode='wb') as fid:
            for plane in field:
                values = plane[::-1,:].ravel()
                fid.write(struct.pack('<%df' % len(values), *values))
"""))
rf('hawc2-st', ('hawc2_st_file.py', """        hasPound=False
        hasDollar=False
        with open(self.filename,'r') as fid:
            for i, line in enumerate(fid):
                hasPound  = hasPound or  line.startswith('#') 
                hasDollar = hasDollar or line.startswith('$')
                if i==nLinesMax:
                    break
        if (not hasPound) or (not hasDollar):
            raise""", """        from itertools import islice
        with open(self.filename,'r') as fid:
            starts = {line[:1] for line in islice(fid, nLinesMax+1)}
        if not {'#','$'} <= starts:
            raise"""), ('hawc2_st_file.py', """        nm = len(self.data.main_data_sets)
        for mset in self.data.main_data_sets.keys():
            for iset in self.data.main_data_sets[mset].keys():
                tab = self.data.main_data_sets[mset][iset]
                if tab.shape[1]==19:
                    col=col_reg
                else:
                    col=col_fpm
                dfs['{}_{}'.format(mset,iset)] = pd.DataFrame(data =tab, columns=col )
""", """        for mset, tables in self.data.main_data_sets.items():
            for iset, tab in tables.items():
                cols = col_reg if tab.shape[1]==19 else col_fpm
                dfs['{}_{}'.format(mset,iset)] = pd.DataFrame(data=tab, columns=cols)
"""))
rf('hawc2-pc', ('hawc2_pc_file.py', """        if filename:
            self.filename = filename
        if not self.filename:
            raise Exception('No filename provided')
        if not os.path.isfile(self.filename):
            raise OSError(2,'File not found:',self.filename)
        if os.stat(self.filename).st_size == 0:
            raise EmptyFileError('File is empty:',self.filename)
        # ---
        try:
            self.data = PCFile(self.filename)
        except Exception as e:    
            raise WrongFormatError('PC File {}: '.format(self.filename)+str(e))
""", """        filename = filename or self.filename
        if not filename:
            raise Exception('No filename provided')
        self.filename = filename
        if os.path.isfile(filename):
            if not os.path.getsize(filename):
                raise EmptyFileError('File is empty:', filename)
        else:
            raise OSError(2, 'File not found:', filename)
        try:
            data = PCFile(filename)
        except Exception as e:
            raise WrongFormatError('PC File {}: {}'.format(filename, e))
        self.data = data
"""), ('hawc2_pc_file.py', """        dfs = {}
        for iset in self.data.pc_sets.keys():
            vt, vpolar = self.data.pc_sets[iset]
            for ipol in range(len(vt)):
                name='pc_set_{}_t_{}'.format(iset,vt[ipol])
                dfs[name] = pd.DataFrame(data=vpolar[ipol], columns=cols)
        return dfs
""", """        return {'pc_set_{}_t_{}'.format(iset, t): pd.DataFrame(data=polar, columns=cols)
                for iset, (vt, vpolar) in self.data.pc_sets.items()
                for t, polar in zip(vt, vpolar)}
"""))
rf('hawc2-dat', ('hawc2_dat_file.py', """        try:
            res_file  = ReadHawc2(self.filename)
            self.data = res_file.ReadAll()
            self.info['attribute_names'] = res_file.ChInfo[0]
            self.info['attribute_units'] = res_file.ChInfo[1]
            self.info['attribute_descr'] = res_file.ChInfo[2]
            if res_file.FileFormat=='BHAWC_ASCII':
                self.bHawc=True
        except FileNotFoundError:
            raise
            #raise WrongFormatError('HAWC2 dat File {}:  '.format(self.filename)+' File Not Found:'+e.filename)
        except Exception as e:    
#             raise e
            raise WrongFormatError('HAWC2 dat File {}: '.format(self.filename)+str(e))
""", """        try:
            res_file  = ReadHawc2(self.filename)
            self.data = res_file.ReadAll()
            for key, values in zip(('attribute_names','attribute_units','attribute_descr'), res_file.ChInfo):
                self.info[key] = values
            self.bHawc = res_file.FileFormat=='BHAWC_ASCII'
        except Exception as e:
            if isinstance(e, FileNotFoundError):
                raise
            raise WrongFormatError('HAWC2 dat File {}: {}'.format(self.filename, str(e)))
"""), ('hawc2_dat_file.py', """        filename=self.filename
        ext = os.path.splitext(filename)[-1].lower()
        if ext=='.dat':
            datfilename=filename
        elif ext=='.sel':
            datfilename=filename[:-4]+'.dat'
        else:
            datfilename=filename+'.dat'
        selfilename=datfilename[:-4]+'.sel'
""", """        base, ext = os.path.splitext(self.filename)
        if ext.lower()=='.dat':
            datfilename = self.filename
        else:
            if ext.lower()!='.sel':
                base = self.filename
            datfilename = base+'.dat'
        selfilename = base+'.sel'
"""))
rf('flex-out', ('flex_out_file.py', """        try:
            if Version ==3:
                data = data.reshape(nSensors, nt).transpose()
            else:
                data = data.reshape(nt, nSensors)
        except ValueError:
            raise WrongFormatError("Flat data length {} is not compatible with {}x{} (nt x nSensors)".format(len(data),nt,nSensors))
        for i in range(nSensors):
            data[:, i] *= scale_factors[i]

        return (data,tmin,dt,Version,DateID,title)
""", """    try:
        data = data.reshape(nSensors, nt).T if Version==3 else data.reshape(nt, nSensors)
    except ValueError:
        raise WrongFormatError("Flat data length %d is not compatible with %dx%d (nt x nSensors)" % (len(data), nt, nSensors))
    data = data * scale_factors
    return data, tmin, dt, Version, DateID, title
"""), ('flex_out_file.py', """    with open(sensor_file, encoding="utf-8") as fid:
        sensor_info_lines = fid.readlines()[2:]
    sensor_info = []
    d=dict({ 'ID':[],'Gain':[],'Offset':[],'Unit':[],'Name':[],'Description':[]});
    for line in sensor_info_lines:
        line   = line.strip().split()
        d['ID']          .append(int(line[0]))
        d['Gain']        .append(float(line[1]))
        d['Offset']      .append(float(line[2]))
        d['Unit']        .append(line[5])
        d['Name']        .append(line[6])
        d['Description'] .append(' '.join(line[7:]))
    return d
""", """    rows = []
    with open(sensor_file, encoding="utf-8") as fid:
        for i, line in enumerate(fid):
            if i>=2:
                rows.append(line.split())
    return {'ID': [int(r[0]) for r in rows], 'Gain': [float(r[1]) for r in rows], 'Offset': [float(r[2]) for r in rows],
            'Unit': [r[5] for r in rows], 'Name': [r[6] for r in rows], 'Description': [' '.join(r[7:]) for r in rows]}
"""))
rf('flex-blade', ('flex_blade_file.py', """        with open(self.filename, 'r', errors="surrogateescape") as f:
            try:
                firstline  = f.readline().strip()
                nSections = int(f.readline().strip().split()[0])
            except:
                raise WrongFormatError('Unable to read first two lines of blade file')
            try:
                self.version=int(firstline[1:4])
            except:
                self.version=0
""", """        with open(self.filename, 'r', errors="surrogateescape") as f:
            nSections, self.version = self._readHead(f)
"""), ('flex_blade_file.py', """#     def toString(self):
""", """    @staticmethod
    def _readHead(f):
        try:
            first     = f.readline().strip()
            nSections = int(f.readline().split()[0])
        except (ValueError, IndexError, UnicodeDecodeError):
            raise WrongFormatError('Unable to read first two lines of blade file')
        try:
            version = int(first[1:4])
        except ValueError:
            version = 0
        return nSections, version

#     def toString(self):
"""), ('flex_blade_file.py', """            struct        = np.zeros((nSections,nColsStruct))
            aero          = np.zeros((nSections,nColsAero))
""", """            def table(nCols):
                tab = np.zeros((nSections,nCols))
                for row in tab:
                    row[:] = [float(v) for v in f.readline().split()[:nCols]]
                return tab
"""), ('flex_blade_file.py', """                for iSec in range(nSections):
                    vals=f.readline().split()
                    #if len(vals)>=nColsStruct:
                    struct[iSec,:]=np.array(vals[0:nColsStruct]).astype(float)
                    #elif""", """                struct = table(nColsStruct)
                    #elif"""), ('flex_blade_file.py', """                for iSec in range(nSections):
                    vals=f.readline().split()[0:nColsAero]
                    aero[iSec,:]=np.array(vals).astype(float)
""", """                aero = table(nColsAero)
"""))
rf('bladed', ('bladed_out_file.py', """        files = glob.glob(searchPattern)

        # We'll store the data in "dataSets",dictionaries
        dataSets={}

        if len(files)==0:
            e= FileNotFoundError(searchPattern)
            e.filename=(searchPattern)
            raise e
        elif len(files)==1:
            readTimeFilesOnly=False

        files.sort()

        for i,filename in enumerate(files):

            base, fileext = os.path.splitext(filename)
            dataFilename = base + fileext.replace('%','$')
            try:
                # Call "Read_bladed_file" function to Read and store data:
                data, info = read_bladed_output(filename, readTimeFilesOnly=readTimeFilesOnly)    
            except FileNotFoundError as e:
                print('>>> Missing datafile: {}'.format(e.filename))
                if len(files)==1:
                    raise e
                continue
            except ValueError as e:
                print('>>> ValueError while reading: {}'.format(dataFilename))
                if len(files)==1:
                    raise e
                continue
            except:
                raise 
                print('>>> Misc error while reading: {}'.format(dataFilename))
                if len(files)==1:
                    raise 
                continue
            if len(data)==0:
""", """        files = sorted(glob.iglob(searchPattern))
        if not files:
            err = FileNotFoundError(searchPattern)
            err.filename = searchPattern
            raise err
        single = len(files)==1
        readTimeFilesOnly = readTimeFilesOnly and not single

        # We'll store the data in "dataSets",dictionaries
        dataSets={}
        for filename in files:
            try:
                data, info = read_bladed_output(filename, readTimeFilesOnly)
            except (FileNotFoundError, ValueError) as e:
                print('>>> Problem with {}: {}'.format(filename, e))
                if single:
                    raise
                continue
            if len(data)==0:
"""), ('bladed_out_file.py', """            key = info['nMajor']
            
            if key in dataSets.keys():
                # dataset with this length are already present, we concatenate
                dset = dataSets[key]
""", """            key  = info['nMajor']
            dset = dataSets.get(key)
            if dset is not None:
                # dataset with this length are already present, we concatenate
"""))
