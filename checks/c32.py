"""C32: on-disk structures."""
import os

from vfa.cdef import CType, Namespace

TECHNIQUE = ("layout computation over the structure definitions the package hands to the parser, compared field by field (offset, width, count, kind, "
             "sign, byte order) with tables of the on-disk formats")
EXPLAIN = ("Every structure definition the modules of the package hand to the structure parser is resolved and laid out; the place, width, count, kind, "
           "sign and byte order of each field is compared with tables written from the descriptions of the formats, and so are the format's constants.")
ASSUME = ["reserved and padding fields carry no meaning", "the LDM definitions are unfinished and nothing reads them; they are left out"]

# Per format: byte order, and per structure its fields as "offset name type" (u8..u64 unsigned, i32 signed, c char, w wide char; xN an array,
# x* an array whose length is in the data). The names are the ones of the format, as the package exposes them.
FORMATS = {
    "MBR": ("<", {
        "part": "0 bootable u8, 1 start_head u8, 2 start_cyl_sec u16, 4 type u8, 5 end_head u8, 6 end_cyl_sec u16, 8 sector_ofs u32, 12 sector_size u32",
        "mbr": "0 bootcode cx440, 440 vol_no u32, 446 part part_s x4, 510 bootsig u16",
    }, {}),
    "GPT": ("<", {
        "GPT_HEADER": "0 signature cx8, 8 revision u32, 12 header_size u32, 16 crc32 u32, 24 current_lba u64, 32 backup_lba u64, 40 first_usable_lba u64, "
                      "48 last_usable_lba u64, 56 guid cx16, 72 lba_partition_array u64, 80 partition_table_count u32, 84 partition_entry_size u32, "
                      "88 partition_table_crc u32",
        "GPT_PARTITION": "0 type_guid cx16, 16 partition_guid cx16, 32 first_lba u64, 40 last_lba u64, 48 attribute_flags u64, 56 name cx72",
    }, {}),
    "APM": (">", {
        "partition_entry": "0 signature cx2, 4 partition_count u32, 8 partition_start u32, 12 partition_size u32, 16 partition_name cx32, "
                           "48 partition_type cx32, 80 data_start u32, 84 data_size u32, 88 partition_status u32, 92 boot_code_start u32, "
                           "96 boot_code_size u32, 100 boot_loader_address u32, 108 boot_code_entry u32, 116 boot_code_checksum u32, "
                           "120 processor_type cx16",
    }, {}),
    "BSD": ("<", {
        "partition": "0 p_size u32, 4 p_offset u32, 8 p_fsize u32, 12 p_fstype u8, 13 p_frag u8, 14 p_cpg u16",
        "partition64": "0 p_boffset u64, 8 p_bsize u64, 16 p_fstype u8, 32 p_type_uuid cx16, 48 p_stor_uuid cx16",
        "disklabel": "0 d_magic u32, 4 d_type u16, 6 d_subtype u16, 8 d_typename cx16, 24 d_packname cx16, 40 d_secsize u32, 44 d_nsectors u32, "
                     "48 d_ntracks u32, 52 d_ncylinders u32, 56 d_secpercyl u32, 60 d_secperunit u32, 64 d_sparespertrack u16, 66 d_sparespercyl u16, "
                     "68 d_acylinders u32, 72 d_rpm u16, 74 d_interleave u16, 76 d_trackskew u16, 78 d_cylskew u16, 80 d_headswitch u32, "
                     "84 d_trkseek u32, 88 d_flags u32, 92 d_drivedata u32x5, 132 d_magic2 u32, 136 d_checksum u16, 138 d_npartitions u16, "
                     "140 d_bbsize u32, 144 d_sbsize u32",
        "disklabel64": "0 d_magic u32, 4 d_crc u32, 8 d_align u32, 12 d_npartitions u32, 16 d_stor_uuid cx16, 32 d_total_size u64, 40 d_bbase u64, "
                       "48 d_pbase u64, 56 d_pstop u64, 64 d_abase u64, 72 d_packname cx64",
    }, {
        "BSD_MAGIC": 0x82564557, "DISKMAGIC64": 0xC4464C59, "MAXPARTITIONS64": 16, "BSD_NDRIVEDATA": 5, "BSD_NSPARE": 5, "BSD_PART_RAW": 2,
        "BSD_PART_SWAP": 1, "BSD_BOOTBLOCK_SIZE": 8192, "FS_UNUSED": 0, "FS_SWAP": 1, "FS_V6": 2, "FS_V7": 3, "FS_SYSV": 4, "FS_V71K": 5, "FS_V8": 6,
        "FS_BSDFFS": 7, "FS_MSDOS": 8, "FS_BSDLFS": 9, "FS_OTHER": 10, "FS_HPFS": 11, "FS_ISO9660": 12, "FS_BOOT": 13, "FS_VINUM": 14, "FS_RAID": 15,
        "FS_FILECORE": 16, "FS_EXT2FS": 17, "FS_NTFS": 18, "FS_CCD": 20, "FS_JFS2": 21, "FS_HAMMER": 22, "FS_HAMMER2": 23, "FS_UDF": 24, "FS_EFS": 26,
        "FS_ZFS": 27, "FS_NANDFS": 30, "DTYPE_SMD": 1, "DTYPE_MSCP": 2, "DTYPE_DEC": 3, "DTYPE_SCSI": 4, "DTYPE_ESDI": 5, "DTYPE_ST506": 6,
        "DTYPE_HPIB": 7, "DTYPE_HPFL": 8, "DTYPE_FLOPPY": 10, "DTYPE_CCD": 11, "DTYPE_VINUM": 12, "DTYPE_DOC2K": 13, "DTYPE_RAID": 14, "DTYPE_JFS2": 16,
        "D_REMOVABLE": 1, "D_ECC": 2, "D_BADSECT": 4, "D_RAMDISK": 8, "D_CHAIN": 16,
    }),
    "MD": ("<", {
        "mdp_disk_t": "0 number u32, 4 major u32, 8 minor u32, 12 raid_disk u32, 16 state u32",
        "mdp_super_t": "0 md_magic u32, 4 major_version u32, 8 minor_version u32, 12 patch_version u32, 16 gvalid_words u32, 20 set_uuid0 cx4, 24 ctime u32, "
                       "28 level i32, 32 size u32, 36 nr_disks u32, 40 raid_disks u32, 44 md_minor u32, 48 not_persistent u32, 52 set_uuid1 cx4, "
                       "56 set_uuid2 cx4, 60 set_uuid3 cx4, 128 utime u32, 132 state u32, 136 active_disks u32, 140 working_disks u32, 144 failed_disks u32, "
                       "148 spare_disks u32, 152 sb_csum u32, 156 events_lo u32, 160 events_hi u32, 164 cp_events_lo u32, 168 cp_events_hi u32, "
                       "172 recovery_cp u32, 176 reshape_position u64, 184 new_level u32, 188 delta_disks u32, 192 new_layout u32, 196 new_chunk u32, "
                       "256 layout u32, 260 chunk_size u32, 264 root_pv u32, 268 root_block u32, 512 disks mdp_device_descriptor_s x27, "
                       "3968 this_disk mdp_device_descriptor_s",
        "mdp_superblock_1": "0 magic u32, 4 major_version u32, 8 feature_map u32, 16 set_uuid cx16, 32 set_name cx32, 64 ctime u64, 72 level i32, "
                            "76 layout u32, 80 size u64, 88 chunksize u32, 92 raid_disks u32, 96 bitmap_offset u32, 100 new_level u32, "
                            "104 reshape_position u64, 112 delta_disks u32, 116 new_layout u32, 120 new_chunk u32, 124 new_offset u32, 128 data_offset u64, "
                            "136 data_size u64, 144 super_offset u64, 152 recovery_offset u64, 152 journal_tail u64, 160 dev_number u32, "
                            "164 cnt_corrected_read u32, 168 device_uuid cx16, 184 devflags u8, 185 bblog_shift u8, 186 bblog_size u16, "
                            "188 bblog_offset i32, 192 utime u64, 200 events u64, 208 resync_offset u64, 216 sb_csum u32, 220 max_dev u32, "
                            "256 dev_roles u16x*",
    }, {
        "MD_RESERVED_BYTES": 65536, "MD_RESERVED_SECTORS": 128, "MD_SB_DISKS": 27, "MD_SB_MAGIC": 0xA92B4EFC, "MD_DISK_FAULTY": 0, "MD_DISK_ACTIVE": 1,
        "MD_DISK_SYNC": 2, "MD_DISK_REMOVED": 3, "MD_DISK_CLUSTER_ADD": 4, "MD_DISK_CANDIDATE": 5, "MD_DISK_FAILFAST": 10, "MD_DISK_WRITEMOSTLY": 9,
        "MD_DISK_JOURNAL": 18, "MD_DISK_ROLE_SPARE": 0xFFFF, "MD_DISK_ROLE_FAULTY": 0xFFFE, "MD_DISK_ROLE_JOURNAL": 0xFFFD, "MD_DISK_ROLE_MAX": 0xFF00,
        "LEVEL_MULTIPATH": -4, "LEVEL_LINEAR": -1, "LEVEL_FAULTY": -5, "ALGORITHM_LEFT_ASYMMETRIC": 0, "ALGORITHM_RIGHT_ASYMMETRIC": 1,
        "ALGORITHM_LEFT_SYMMETRIC": 2, "ALGORITHM_RIGHT_SYMMETRIC": 3, "ALGORITHM_PARITY_0": 4, "ALGORITHM_PARITY_N": 5,
        "ALGORITHM_ROTATING_ZERO_RESTART": 8, "ALGORITHM_ROTATING_N_RESTART": 9, "ALGORITHM_ROTATING_N_CONTINUE": 10, "ALGORITHM_LEFT_ASYMMETRIC_6": 16,
        "ALGORITHM_RIGHT_ASYMMETRIC_6": 17, "ALGORITHM_LEFT_SYMMETRIC_6": 18, "ALGORITHM_RIGHT_SYMMETRIC_6": 19, "ALGORITHM_PARITY_0_6": 20,
        "ALGORITHM_PARITY_N_6": 5, "WriteMostly1": 1, "FailFast1": 2,
    }),
    "DDF": (">", {
        "DDF_Header": "0 Signature u32, 4 CRC u32, 8 DDF_Header_GUID cx24, 32 DDF_rev cx8, 40 Sequence_Number u32, 44 TimeStamp u32, 48 Open_Flag u8, "
                      "49 Foreign_Flag u8, 50 Disk_Grouping u8, 64 Header_Ext u8x32, 96 Primary_Header_LBA u64, 104 Secondary_Header_LBA u64, "
                      "112 Header_Type u8, 116 Workspace_Length u32, 120 Workspace_LBA u64, 128 Max_PD_Entries u16, 130 Max_VD_Entries u16, "
                      "132 Max_Partitions u16, 134 Configuration_Record_Length u16, 136 Max_Primary_Element_Entries u16, 138 Max_Mapped_Block_Entries u32, "
                      "192 Controller_Data_Section u32, 196 Controller_Data_Section_Length u32, 200 Physical_Disk_Records_Section u32, "
                      "204 Physical_Disk_Records_Section_Length u32, 208 Virtual_Disk_Records_Section u32, 212 Virtual_Disk_Records_Section_Length u32, "
                      "216 Configuration_Records_Section u32, 220 Configuration_Records_Section_Length u32, 224 Physical_Disk_Data_Section u32, "
                      "228 Physical_Disk_Data_Section_Length u32, 232 BBM_Log_Section u32, 236 BBM_Log_Section_Length u32, 240 Diagnostic_Space_Section u32, "
                      "244 Diagnostic_Space_Section_Length u32, 248 Vendor_Specific_Logs_Section u32, 252 Vendor_Specific_Logs_Section_Length u32",
        "Controller_Data": "0 Signature u32, 4 CRC u32, 8 Controller_GUID cx24, 32 Controller_Type cx8, 40 Product_ID cx16",
        "Physical_Disk_Entry": "0 PD_GUID cx24, 24 PD_Reference u32, 28 PD_Type u16, 30 PD_State u16, 32 Configured_Size u64, 40 Path_Information cx18, "
                               "58 Block_Size u16",
        "Physical_Disk_Records": "0 Signature u32, 4 CRC u32, 8 Populated_PDEs u16, 10 Max_PDE_Supported u16",
        "Virtual_Disk_Entry": "0 VD_GUID cx24, 24 VD_Number u16, 28 VD_Type u32, 32 VD_State u8, 33 Init_State u8, 34 Partially_Optimal_Drive_Failures_Remaining u8, "
                              "48 VD_Name cx16",
        "Virtual_Disk_Records": "0 Signature u32, 4 CRC u32, 8 Populated_VDEs u16, 10 Max_VDE_Supported u16",
        "VD_Configuration_Record": "0 Signature u32, 4 CRC u32, 8 VD_GUID cx24, 32 Timestamp u32, 36 Sequence_Number u32, 64 Primary_Element_Count u16, "
                                   "66 Strip_Size u8, 67 Primary_RAID_Level u8, 68 RAID_Level_Qualifier u8, 69 Secondary_Element_Count u8, "
                                   "70 Secondary_Element_Seq u8, 71 Secondary_RAID_Level u8, 72 Block_Count u64, 80 VD_Size u64, 88 Block_Size u16, "
                                   "90 Rotate_Parity_Count u8, 96 Associated_Spares cx32, 128 Cache_Policies_And_Parameters u64, 136 BG_Rate u8, "
                                   "140 MDF_Parity_Disks u8, 141 MDF_Parity_Generator_Polynomial u16, 144 MDF_Constant_Generation_Method u8, "
                                   "384 V0 cx32, 416 V1 cx32, 448 V2 cx16, 464 V3 cx16, 480 Vendor_Specific_Scratch_Space cx32",
        "VU_Configuration_Record": "0 Signature u32, 4 CRC u32, 8 VD_GUID cx24",
        "Spare_Assignment_Entry": "0 VD_GUID cx24, 24 Secondary_Element u16",
        "Spare_Assignment_Record": "0 Signature u32, 4 CRC u32, 8 Timestamp u32, 19 Spare_Type u8, 20 Populated_SAEs u16, 22 Max_SAE_Supported u16",
        "Physical_Disk_Data": "0 Signature u32, 4 CRC u32, 8 PD_GUID cx24, 32 PD_Reference u32, 36 Forced_Ref_Flag u8, 37 Forced_PD_GUID_Flag u8, "
                              "38 Vendor_Specific_Scratch_Space cx32",
        "Mapped_Block_Entry": "0 Defective_Block_Start u64, 8 Spare_Block_Offset u32, 12 Remapped_Marked_Count u16",
        "Bad_Block_Management_Log": "0 Signature u32, 4 CRC u32, 8 Entry_Count u32, 12 Reserved_Spare_Block_Count u32, 24 First_Spare_LBA u64",
        "Vendor_Specific_Log": "0 Signature u32, 4 CRC u32, 8 Log_Owner cx8",
    }, {
        "DDF_HEADER_SIGNATURE": 0xDE11DE11, "DDF_CONTROLLER_DATA_SIGNATURE": 0xAD111111, "DDF_PDR_SIGNATURE": 0x22222222,
        "DDF_VD_RECORD_SIGNATURE": 0xDDDDDDDD, "DDF_VDCR_SIGNATURE": 0xEEEEEEEE, "DDF_VUCR_SIGNATURE": 0x88888888, "DDF_SA_SIGNATURE": 0x55555555,
        "DDF_PDD_SIGNATURE": 0x33333333, "DDF_BBML_SIGNATURE": 0xABADB10C, "DDF_HEADER_ANCHOR": 0, "DDF_HEADER_PRIMARY": 1, "DDF_HEADER_SECONDARY": 2,
        "DDF_HEADER_CLOSED": 0, "DDF_HEADER_OPENED_MASK": 0x0F, "DDF_HEADER_OPEN_ANCHOR": 0xFF, "DDF_PDE_GUID_FORCE": 1, "DDF_PDE_PARTICIPATING": 2,
        "DDF_PDE_GLOBAL_SPARE": 4, "DDF_PDE_CONFIG_SPARE": 8, "DDF_PDE_FOREIGN": 16, "DDF_PDE_LEGACY": 32, "DDF_PDE_TYPE_MASK": 0xF000,
        "DDF_PDE_SCSI": 0x1000, "DDF_PDE_SAS": 0x2000, "DDF_PDE_SATA": 0x3000, "DDF_PDE_FC": 0x4000, "DDF_PDE_ONLINE": 1, "DDF_PDE_FAILED": 2,
        "DDF_PDE_REBUILD": 4, "DDF_PDE_TRANSITION": 8, "DDF_PDE_PFA": 16, "DDF_PDE_UNRECOVERED": 32, "DDF_PDE_MISSING": 64, "DDF_VDE_SHARED": 1,
        "DDF_VDE_ENFORCE_GROUP": 2, "DDF_VDE_UNICODE_NAME": 4, "DDF_VDE_OWNER_ID_VALID": 8, "DDF_VDE_OPTIMAL": 0, "DDF_VDE_DEGRADED": 1,
        "DDF_VDE_DELETED": 2, "DDF_VDE_MISSING": 3, "DDF_VDE_FAILED": 4, "DDF_VDE_PARTIAL": 5, "DDF_VDE_OFFLINE": 6, "DDF_VDE_STATE_MASK": 7,
        "DDF_VDE_MORPH": 8, "DDF_VDE_DIRTY": 16, "DDF_VDE_INIT_QUICK": 1, "DDF_VDE_INIT_FULL": 2, "DDF_VDE_INIT_MASK": 3, "DDF_VDE_UACCESS_RW": 0,
        "DDF_VDE_UACCESS_RO": 0x80, "DDF_VDE_UACCESS_BLOCKED": 0xC0, "DDF_VDE_UACCESS_MASK": 0xC0, "DDF_VDCR_RAID0": 0, "DDF_VDCR_RAID1": 1,
        "DDF_VDCR_RAID3": 3, "DDF_VDCR_RAID4": 4, "DDF_VDCR_RAID5": 5, "DDF_VDCR_RAID6": 6, "DDF_VDCR_RAID1E": 0x11, "DDF_VDCR_SINGLE": 0x0F,
        "DDF_VDCR_CONCAT": 0x1F, "DDF_VDCR_RAID5E": 0x15, "DDF_VDCR_RAID5EE": 0x25, "DDF_VDCR_RAID0_SIMPLE": 0, "DDF_VDCR_RAID1_SIMPLE": 0,
        "DDF_VDCR_RAID1_MULTI": 1, "DDF_VDCR_RAID3_0": 0, "DDF_VDCR_RAID3_N": 1, "DDF_VDCR_RAID4_0": 0, "DDF_VDCR_RAID4_N": 1,
        "DDF_VDCR_RAID5_0_RESTART": 0, "DDF_VDCR_RAID6_0_RESTART": 1, "DDF_VDCR_RAID5_N_RESTART": 2, "DDF_VDCR_RAID5_N_CONTINUE": 3,
        "DDF_VDCR_RAID1E_ADJACENT": 0, "DDF_VDCR_RAID1E_OFFSET": 1, "DDF_VDCR_2STRIPED": 0, "DDF_VDCR_2MIRRORED": 1, "DDF_VDCR_2CONCAT": 2,
        "DDF_VDCR_2SPANNED": 3, "DDF_VDCR_CACHE_WB": 1, "DDF_VDCR_CACHE_WB_ADAPTIVE": 2, "DDF_VDCR_CACHE_RA": 4, "DDF_VDCR_CACHE_RA_ADAPTIVE": 8,
    }),
    "LVM2": ("<", {
        "label_header": "0 id cx8, 8 sector u64, 16 crc u32, 20 offset u32, 24 type cx8",
        "pv_header": "0 pv_uuid cx32, 32 device_size u64",
        "disk_locn": "0 offset u64, 8 size u64",
        "mda_header": "0 checksum u32, 4 magic cx16, 20 version u32, 24 start u64, 32 size u64",
        "raw_locn": "0 offset u64, 8 size u64, 16 checksum u32, 20 flags u32",
    }, {"RAW_LOCN_IGNORED": 1}),
    "dm-thin": ("<", {
        "node_header": "0 csum u32, 4 flags u32, 8 blocknr u64, 16 nr_entries u32, 20 max_entries u32, 24 value_size u32",
        "thin_disk_superblock": "0 csum u32, 4 flags u32, 8 blocknr u64, 16 uuid u8x16, 32 magic u64, 40 version u32, 44 time u32, 48 trans_id u64, "
                                "56 held_root u64, 64 data_space_map_root u8x128, 192 metadata_space_map_root u8x128, 320 data_mapping_root u64, "
                                "328 device_details_root u64, 336 data_block_size u32, 340 metadata_block_size u32, 344 metadata_nr_blocks u64, "
                                "352 compat_flags u32, 356 compat_ro_flags u32, 360 incompat_flags u32",
        "disk_device_details": "0 mapped_blocks u64, 8 transaction_id u64, 16 creation_time u32, 20 snapshotted_time u32",
    }, {"INTERNAL_NODE": 1, "LEAF_NODE": 2, "THIN_SUPERBLOCK_MAGIC": 27022010, "THIN_SUPERBLOCK_LOCATION": 0, "SECTOR_TO_BLOCK_SHIFT": 3,
        "SPACE_MAP_ROOT_SIZE": 128}),
    "Vinum": (">", {
        "header": "0 magic u64, 8 config_length u64, 16 label.sysname cx32, 48 label.name cx32, 80 label.date_of_birth.sec u64, "
                  "88 label.date_of_birth.usec u64, 96 label.last_update.sec u64, 104 label.last_update.usec u64, 112 label.drive_size u64",
    }, {"GV_HDR_OFFSET": 4096, "GV_HDR_LEN": 512, "GV_CFG_OFFSET": 4608, "GV_CFG_LEN": 65536, "GV_DATA_START": 135680,
        "GV_OLD_MAGIC": 0x494E2056494E4F00, "GV_OLD_NOMAGIC": 0x4E4F2056494E4F00, "GV_MAGIC": 0x56494E554D2D3100, "GV_NOMAGIC": 0x56494E554D2D2D00}),
    "VSS": ("<", {
        "volume_header": "0 identifier cx16, 16 version u32, 20 record_type u32, 24 current_offset u64, 48 catalog_offset u64, 56 maximum_size u64, "
                         "64 volume_identifier cx16, 80 store_volume_identifier cx16",
        "catalog_header": "0 identifier cx16, 16 version u32, 20 record_type u32, 24 relative_offset u64, 32 offset u64, 40 next_offset u64",
        "catalog_entry_2": "0 entry_type u64, 8 volume_size u64, 16 store_identifier cx16, 48 creation_time u64",
        "catalog_entry_3": "0 entry_type u64, 8 store_block_list_offset u64, 16 store_identifier cx16, 32 store_header_offset u64, "
                           "40 store_range_list_offset u64, 48 store_bitmap_offset u64, 56 metadata_reference u64, 64 allocated_size u64, "
                           "72 store_previous_bitmap_offset u64",
        "store_header": "0 identifier cx16, 16 version u32, 20 record_type u32, 24 relative_offset u64, 32 offset u64, 40 next_offset u64, 48 size u64",
        "store_information": "16 copy_identifier cx16, 32 copy_set_identifier cx16, 48 type u32, 52 provider u32, 56 attributes u32, "
                             "64 operating_machine_len u16, 66 operating_machine wx*",
        "block_descriptor": "0 original_offset u64, 8 relative_offset u64, 16 store_offset u64, 24 flags u32, 28 allocation_bitmap u32",
        "range_descriptor": "0 store_offset u64, 8 relative_offset u64, 16 size u64",
    }, {
        "VOLUME_HEADER": 1, "CATALOG": 2, "STORE_INDEX": 3, "STORE_HEADER": 4, "STORE_BLOCK_RANGE": 5, "STORE_BITMAP": 6, "IS_FORWARDER": 1,
        "IS_OVERLAY": 2, "NOT_USED": 4, "VSS_VOLSNAP_ATTR_PERSISTENT": 0x1, "VSS_VOLSNAP_ATTR_NO_AUTORECOVERY": 0x2,
        "VSS_VOLSNAP_ATTR_CLIENT_ACCESSIBLE": 0x4, "VSS_VOLSNAP_ATTR_NO_AUTO_RELEASE": 0x8, "VSS_VOLSNAP_ATTR_NO_WRITERS": 0x10,
        "VSS_VOLSNAP_ATTR_TRANSPORTABLE": 0x20, "VSS_VOLSNAP_ATTR_NOT_SURFACED": 0x40, "VSS_VOLSNAP_ATTR_NOT_TRANSACTED": 0x80,
        "VSS_VOLSNAP_ATTR_HARDWARE_ASSISTED": 0x10000, "VSS_VOLSNAP_ATTR_DIFFERENTIAL": 0x20000, "VSS_VOLSNAP_ATTR_PLEX": 0x40000,
        "VSS_VOLSNAP_ATTR_IMPORTED": 0x80000, "VSS_VOLSNAP_ATTR_EXPOSED_LOCALLY": 0x100000, "VSS_VOLSNAP_ATTR_EXPOSED_REMOTELY": 0x200000,
        "VSS_VOLSNAP_ATTR_AUTORECOVER": 0x400000, "VSS_VOLSNAP_ATTR_ROLLBACK_RECOVERY": 0x800000, "VSS_VOLSNAP_ATTR_DELAYED_POSTSNAPSHOT": 0x1000000,
        "VSS_VOLSNAP_ATTR_TXF_RECOVERY": 0x2000000,
    }),
}
SAME = {"header": "gv_hdr", "part": "part_s", "mbr": "mbr_s", "mdp_disk_t": "mdp_device_descriptor_s", "mdp_super_t": "mdp_superblock_s"}


def table(text):
    """{field: (offset, kind, size, signed, count)}"""
    out = {}
    for row in text.split(", "):
        at, name, ty, *rest = row.split()
        ty, _, n = ty.partition("x")
        n = rest[0][1:] if rest else n
        count = None if n == "*" else int(n or 0)
        if ty == "c":
            out[name] = (int(at), "char", 1, False, count)
        elif ty == "w":
            out[name] = (int(at), "wchar", 2, False, count)
        elif ty[0] in "ui" and ty[1:].isdigit():
            out[name] = (int(at), "int", int(ty[1:]) // 8, ty[0] == "i", count)
        else:
            out[name] = (int(at), "struct", None, False, count)
    return out


def layout(ct, at=0, prefix=""):
    """{dotted field: (offset, kind, size, signed, count)} of a structure, up to the first field of unknown length."""
    out = {}
    pos = at
    for name, t, dims in ct.fields:
        n = [ct.ns.const_dim(d, ct) for d in dims]
        kind = "int" if t.kind == "enum" else "struct" if t.kind in ("struct", "union") else t.kind
        count = 0 if not n else None if None in n else 1
        for x in n:
            count = None if count is None else count * x
        size = t.fixed_size()
        if pos is not None:
            if name is not None:
                out[prefix + name] = (pos, kind, None if kind == "struct" else size, t.signed if kind == "int" else False, count)
            if kind == "struct" and not dims:
                out.update(layout(t, pos, prefix + (name + "." if name is not None else "")))
        if ct.kind == "struct":
            pos = None if pos is None or size is None or count is None else pos + size * (count if dims else 1)
    return out


def show(row):
    at, kind, size, signed, count = row
    word = {"char": "char", "wchar": "wchar", "struct": "structure"}.get(kind) or f"{'' if signed else 'u'}int{8 * size}"
    return f"{word}{'' if count == 0 else '[]' if count is None else f'[{count}]'} at {at}"


def namespaces(repo):
    """Every structure namespace of the package with the module that builds it."""
    from vfa.interp import AnalysisError, Analyzer

    an = Analyzer(repo)
    base = os.path.join(repo, "dissect", "volume")
    found, failed, mods = {}, [], []
    for d, _, files in sorted(os.walk(base)):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            dotted = os.path.relpath(path, repo)[:-3].replace(os.sep, ".").removesuffix(".__init__")
            try:
                m = an.module(dotted)
            except AnalysisError as e:
                failed.append(f"{dotted}: {e}")
                continue
            mods.append(m)
    for m in sorted(mods, key=lambda m: "cstruct" not in m.env):
        for v in m.env.values():
            if v.op == "static" and isinstance(v.a[0], Namespace):
                found.setdefault(id(v.a[0]), (v.a[0], os.path.relpath(m.path, repo)))
    return list(found.values()), failed


def rules(repo, tier):
    from check import big_stack

    return big_stack(lambda: decide(*namespaces(repo)))


def decide(spaces, failed):
    findings, undecided, errors = [], list(failed), []
    seen = {"structures": 0, "fields": 0, "constants": 0}
    missing = []
    for fmt, (endian, structs, consts) in FORMATS.items():
        # the namespace of a format is the one that defines most of its structures
        ns, where = max(spaces, key=lambda s: sum(k in s[0].types or SAME.get(k) in s[0].types for k in structs), default=(None, None))
        have = [k for k in structs if ns is not None and (k in ns.types or SAME.get(k) in ns.types)]
        if not have:
            missing.append(fmt)
            continue
        if ns.endian != endian:
            findings.append({"rule": f"byte order of {fmt}", "where": [where], "witness": {"label": "byte order", "code": ns.endian, "expected": endian}})
        for k in structs:
            ct = ns.types.get(k) or ns.types.get(SAME.get(k))
            if not isinstance(ct, CType) or ct.kind != "struct":
                undecided.append(f"{fmt}: no structure {k}")
                continue
            seen["structures"] += 1
            got, want = layout(ct), table(structs[k])
            for name, row in want.items():
                if name not in got:
                    same = [n for n, r in got.items() if r == row and n not in want]
                    undecided.append(f"{k}.{name}: " + (f"called {same[0]} here" if same else "not defined"))
                    continue
                seen["fields"] += 1
                if got[name] != row:
                    findings.append({"rule": f"place of {fmt} {k}.{name}", "where": [f"{where} structure {k}"],
                                     "witness": {"label": f"{k}.{name}", "code": show(got[name]), "expected": show(row)}})
        members = {n: v for t in ns.types.values() if t.kind == "enum" for n, v in t.members.items()}
        for name, want in consts.items():
            got = ns.consts.get(name, members.get(name))
            if got is None:
                continue
            seen["constants"] += 1
            if got != want:
                findings.append({"rule": f"constant {name} of {fmt}", "where": [where], "witness": {"label": name, "code": repr(got), "expected": hex(want)}})
    if missing:
        (errors if len(missing) > len(FORMATS) // 2 else undecided).append(f"no structure definitions found for {', '.join(missing)}")
    if seen["fields"] < 150:
        errors.append(f"only {seen['fields']} fields found")
    return {"findings": findings, "errors": errors, "undecided": undecided,
            "coverage": {**seen, "namespaces": sorted(w for _, w in spaces), "formats": sorted(set(FORMATS) - set(missing)),
                         "functions_scanned": 0, "obligations": seen["fields"] + seen["constants"]}}
